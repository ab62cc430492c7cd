#pragma once
#include "forestdb.h"
