#include "bnl_standin.h"
