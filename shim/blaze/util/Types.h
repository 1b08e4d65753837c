#include <blaze/mini.h>
