#ifdef MC_BACKEND_PY
#include "api.hpp"
#include <cstdlib>
#include <cstring>
extern "C" PyObject* PyInit_wisardpkg();
namespace api {
static std::map<std::string, py::object>* classes;
py::object cls(const char* name) {
  auto it = classes->find(name);
  if (it == classes->end()) it = classes->insert(std::make_pair(std::string(name), py::module_::import("wisardpkg").attr(name))).first;
  return it->second;
}
}
namespace mc {
void backend_init() {
  PyImport_AppendInittab("wisardpkg", PyInit_wisardpkg);
  PyPreConfig pre; PyPreConfig_InitIsolatedConfig(&pre);   // an isolated interpreter does not look at PYTHONMALLOC itself
  if (getenv("PYTHONMALLOC") && !strcmp(getenv("PYTHONMALLOC"), "malloc")) pre.allocator = PYMEM_ALLOCATOR_MALLOC;
  PyStatus early = Py_PreInitialize(&pre); if (PyStatus_Exception(early)) { fprintf(stderr, "python: %s\n", early.err_msg); _Exit(2); }
  PyConfig config; PyConfig_InitIsolatedConfig(&config);
  config.site_import = 0;
  PyConfig_SetBytesString(&config, &config.program_name, "/usr/bin/python3");
  PyStatus st = Py_InitializeFromConfig(&config);
  if (PyStatus_Exception(st)) { fprintf(stderr, "python: %s\n", st.err_msg); _Exit(2); }
  api::classes = new std::map<std::string, py::object>;
  py::module_::import("wisardpkg");
}
}
#else
namespace mc { void backend_init(); void backend_init() {} }
#endif
