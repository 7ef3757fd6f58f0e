#pragma once
#include "aws/vf_s3.h"
