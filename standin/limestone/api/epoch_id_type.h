#pragma once
#include "limestone/api/storage_id_type.h"
