#ifndef VERIF_DRIVERS_QUANTITY_VALUES_H_
#define VERIF_DRIVERS_QUANTITY_VALUES_H_
#include "common.h"
namespace verif {
inline std::vector<float> SpecialFloats() {
  return {0.f, -0.f, 1.f, -1.f, 1e-45f, -1e-45f, 1.1754944e-38f, -1.1754944e-38f, 3.4028235e38f, -3.4028235e38f, 0.001f, 1000.f, 0.1f, 1.f / 3, -2.5f,
          2.54f, 100.f, 16777216.f, 1e30f, -1e30f, 2.f, 0.5f, -7.25f, 360.f, 180.f, 90.f, -90.f, 57.29578f, 1e-20f};
}
}
#endif
