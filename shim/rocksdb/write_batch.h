#include <rocksdb/db.h>
