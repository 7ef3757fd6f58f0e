#pragma once
#include "google/vf_gcs.h"
