/* Force-included when pywrenfold is compiled for the simulator: acquiring and releasing the
   interpreter lock becomes a scheduling point (see shim.c). The shipped build does not see this. */
#ifndef WFSIM_GILHOOK_H
#define WFSIM_GILHOOK_H
#define PyGILState_Ensure wfsim_PyGILState_Ensure
#define PyGILState_Release wfsim_PyGILState_Release
#define PyEval_SaveThread wfsim_PyEval_SaveThread
#define PyEval_RestoreThread wfsim_PyEval_RestoreThread
#endif
