#include <libfccp/csv.h>
