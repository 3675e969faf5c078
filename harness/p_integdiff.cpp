// C19: integrators return the exact derivatives of what they compute.
#include "integ.hpp"
int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("configurations", [](mc::Ctx& c) { integ_config(c, true); });
  e.add("histories", [](mc::Ctx& c) { integ_history(c, true); });
  return e.main(argc, argv);
}
