#ifndef VERIF_PYTHON_PROGRESS_H
#define VERIF_PYTHON_PROGRESS_H
// Stands in for the Python progress callback, so that the output code can be
// built without Python
#include "arki/query/progress.h"
namespace arki {
namespace python {
namespace dataset {
struct PythonProgress : public arki::query::Progress
{
};
} // namespace dataset
} // namespace python
} // namespace arki
#endif
