// what a chunk is when it is made without saying its size
#include "kanon/buffer/chunk_list.h"

namespace verifw {
using namespace kanon;
unsigned chunk_default()
{
  Chunk c;
  return c.GetMaxSize();
}
} // namespace verifw
