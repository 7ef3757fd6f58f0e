// genProg lives in prog_gen.cpp
#pragma once
