// Container sizes around the powers of two at which a narrow counter, index or capacity would wrap.
#pragma once
static inline unsigned hugeN(unsigned top = 8) {
  static constexpr unsigned ns[] = {128, 255, 256, 257, 1024, 1025, 32768, 65536, 65537};
  return ns[split("size", top + 1)];
}
