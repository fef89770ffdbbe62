#include <Python.h>
// positive example of the lock rule: shared state is touched without the lock
int shared_table[4];
void touch_shared_table(int i);
PyObject* entry(PyObject* self, PyObject* arg) {
  Py_BEGIN_ALLOW_THREADS;
  touch_shared_table(1);
  Py_END_ALLOW_THREADS;
  Py_RETURN_NONE;
}
void touch_shared_table(int i) { shared_table[i]++; }
