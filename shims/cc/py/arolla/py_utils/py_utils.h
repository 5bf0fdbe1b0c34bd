// Stand-in for arolla's py_utils (not available offline): the parts that small
// extension modules of koladata use.
#ifndef VERIF_SHIM_PY_UTILS_H_
#define VERIF_SHIM_PY_UTILS_H_

#include <Python.h>

#include <cassert>
#include <cstddef>
#include <utility>

#include "absl/types/span.h"

namespace arolla::python {

inline void DCheckPyGIL() { assert(PyGILState_Check()); }
inline void CheckPyGIL() { assert(PyGILState_Check()); }

class AcquirePyGIL {
 public:
  AcquirePyGIL() : state_(PyGILState_Ensure()) {}
  ~AcquirePyGIL() { PyGILState_Release(state_); }

 private:
  PyGILState_STATE state_;
};

class ReleasePyGIL {
 public:
  ReleasePyGIL() : state_(PyEval_SaveThread()) {}
  ~ReleasePyGIL() { PyEval_RestoreThread(state_); }

 private:
  PyThreadState* state_;
};

class PyObjectPtr {
 public:
  PyObjectPtr() = default;
  PyObjectPtr(std::nullptr_t) {}  // NOLINT
  static PyObjectPtr Own(PyObject* p) { PyObjectPtr r; r.p_ = p; return r; }
  static PyObjectPtr NewRef(PyObject* p) { Py_XINCREF(p); return Own(p); }
  PyObjectPtr(const PyObjectPtr& o) : p_(o.p_) { Py_XINCREF(p_); }
  PyObjectPtr(PyObjectPtr&& o) noexcept : p_(std::exchange(o.p_, nullptr)) {}
  PyObjectPtr& operator=(const PyObjectPtr& o) { PyObjectPtr t(o); std::swap(p_, t.p_); return *this; }
  PyObjectPtr& operator=(PyObjectPtr&& o) noexcept { PyObjectPtr t(std::move(o)); std::swap(p_, t.p_); return *this; }
  ~PyObjectPtr() { Py_XDECREF(p_); }
  PyObject* get() const { return p_; }
  PyObject* release() { return std::exchange(p_, nullptr); }
  void reset() { Py_XDECREF(std::exchange(p_, nullptr)); }
  explicit operator bool() const { return p_ != nullptr; }
  friend bool operator==(const PyObjectPtr& a, std::nullptr_t) { return a.p_ == nullptr; }
  friend bool operator!=(const PyObjectPtr& a, std::nullptr_t) { return a.p_ != nullptr; }
  friend bool operator==(const PyObjectPtr& a, const PyObjectPtr& b) { return a.p_ == b.p_; }
  friend bool operator!=(const PyObjectPtr& a, const PyObjectPtr& b) { return a.p_ != b.p_; }

 private:
  PyObject* p_ = nullptr;
};
using PyObjectGILSafePtr = PyObjectPtr;

inline bool PyTuple_AsSpan(PyObject* obj, absl::Span<PyObject*>* result) {
  if (PyTuple_Check(obj)) {
    *result = absl::Span<PyObject*>(reinterpret_cast<PyTupleObject*>(obj)->ob_item,
                                    static_cast<size_t>(PyTuple_GET_SIZE(obj)));
    return true;
  }
  if (PyList_Check(obj)) {
    *result = absl::Span<PyObject*>(reinterpret_cast<PyListObject*>(obj)->ob_item,
                                    static_cast<size_t>(PyList_GET_SIZE(obj)));
    return true;
  }
  return false;
}

}  // namespace arolla::python
#endif
