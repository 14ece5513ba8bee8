// Stands for the crocoddyl/config.hpp that jrl-cmakemodules would generate.
#ifndef CROCODDYL_CONFIG_HH
#define CROCODDYL_CONFIG_HH

#define CROCODDYL_DLLAPI
#define CROCODDYL_EXPLICIT_INSTANTIATION_DECLARATION_DLLAPI
#define CROCODDYL_EXPLICIT_INSTANTIATION_DEFINITION_DLLAPI

#endif  // CROCODDYL_CONFIG_HH
