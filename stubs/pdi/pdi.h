// Stand-in for PDI + its decl_hdf5 plugin: interprets the YAML specification that the code under test hands to
// PDI_init and executes it with the serial HDF5 API (ranks are threads of one process, see stubs/mpi/mpi.h).
#pragma once
#include "paraconf.h"
typedef enum { PDI_OK = 0 } PDI_status_t;
typedef enum { PDI_NONE = 0, PDI_IN = 1, PDI_OUT = 2, PDI_INOUT = 3 } PDI_inout_t;
PDI_status_t PDI_init(PC_tree_t conf);
PDI_status_t PDI_finalize();
PDI_status_t PDI_multi_expose(char const* event, char const* name, void const* data, PDI_inout_t access, ...);
PDI_status_t PDI_expose(char const* name, void const* data, PDI_inout_t access);
PDI_status_t PDI_share(char const* name, void const* data, PDI_inout_t access);
PDI_status_t PDI_reclaim(char const* name);
PDI_status_t PDI_event(char const* event);
// for the tests: is PDI initialized on this thread, and how many trees has it not destroyed
bool pdi_stub_live();
int& pdi_stub_trees();
