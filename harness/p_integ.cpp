// C18: integrators compute the documented discretisation.
#include "integ.hpp"
int main(int argc, char** argv) {
  mc::Explorer e;
  e.add("configurations", [](mc::Ctx& c) { integ_config(c, false); });
  e.add("histories", [](mc::Ctx& c) { integ_history(c, false); });
  return e.main(argc, argv);
}
