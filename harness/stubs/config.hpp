// What the (absent) cmake submodule would generate: on Linux the export macros are empty.
#ifndef CROCODDYL_CONFIG_HPP_STUB
#define CROCODDYL_CONFIG_HPP_STUB
#define CROCODDYL_DLLAPI
#define CROCODDYL_EXPLICIT_INSTANTIATION_DECLARATION_DLLAPI
#define CROCODDYL_EXPLICIT_INSTANTIATION_DEFINITION_DLLAPI
#endif
