// the SPIR-V registry as of the pinned commit (written by tools/gen_registry.py, once)
#pragma once
struct RegOperand { unsigned char kind, category, quantifier; };
struct RegIns { unsigned op, ext; const char *name; unsigned first, n; };
struct RegEnum { unsigned kind, value; const char *name; };
struct RegParam { unsigned kind, value, first, n; };
static const RegOperand regOperands[] = {
{47,2,0}, {48,2,0}, {53,3,0}, {10,1,0}, {52,3,0}, {51,2,1}, {53,3,1}, {53,3,0}, {51,2,0}, {53,3,0}, {51,2,0}, {52,3,0}, {53,3,0}, {48,2,0}, {53,3,0}, {51,2,0}, {52,3,0}, {52,3,0}, {53,3,0}, {48,2,0}, {53,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {56,3,0}, {51,2,2}, {12,1,0}, {13,1,0}, {11,1,0}, {51,2,0}, {53,3,0}, {51,2,2}, {51,2,0}, {14,1,0}, {36,1,0}, {48,2,0}, {48,2,0}, {48,2,0}, {52,3,0}, {52,3,0}, {48,2,0}, {52,3,0}, {48,2,0}, {51,2,0}, {52,3,0}, {48,2,0}, {51,2,0}, {52,3,0}, {48,2,0}, {51,2,0}, {16,1,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {19,1,0}, {28,1,1}, {48,2,0}, {48,2,0}, {51,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {48,2,0}, {51,2,0}, {48,2,0}, {51,2,2}, {48,2,0}, {53,3,0}, {48,2,0}, {15,1,0}, {51,2,0}, {48,2,0}, {51,2,0}, {51,2,2}, {48,2,0}, {48,2,0}, {48,2,0}, {48,2,0}, {48,2,0}, {28,1,0}, {51,2,0}, {15,1,0}, {47,2,0}, {48,2,0}, {47,2,0}, {48,2,0}, {47,2,0}, {48,2,0}, {55,3,0}, {47,2,0}, {48,2,0}, {51,2,2}, {47,2,0}, {48,2,0}, {17,1,0}, {52,3,0}, {18,1,0}, {47,2,0}, {48,2,0}, {47,2,0}, {48,2,0}, {47,2,0}, {48,2,0}, {47,2,0}, {48,2,0}, {55,3,0}, {47,2,0}, {48,2,0}, {51,2,2}, {47,2,0}, {48,2,0}, {57,3,0}, {47,2,0}, {48,2,0}, {4,0,0}, {51,2,0}, {47,2,0}, {48,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,2}, {47,2,0}, {48,2,0}, {15,1,0}, {51,2,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {6,0,1}, {51,2,0}, {51,2,0}, {6,0,1}, {51,2,0}, {51,2,0}, {6,0,1}, {6,0,1}, {51,2,0}, {51,2,0}, {51,2,0}, {6,0,1}, {6,0,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,2}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,2}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,2}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,2}, {51,2,0}, {31,1,0}, {51,2,0}, {52,3,0}, {31,1,0}, {48,2,0}, {51,2,0}, {51,2,2}, {51,2,0}, {59,4,2}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {52,3,2}, {47,2,0}, {48,2,0}, {51,2,2}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,2}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {52,3,2}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {0,0,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {0,0,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {0,0,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {0,0,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {0,0,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {0,0,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {0,0,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {0,0,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {0,0,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {0,0,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {0,0,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {0,0,1}, {51,2,0}, {51,2,0}, {51,2,0}, {0,0,1}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {15,1,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {50,2,0}, {50,2,0}, {49,2,0}, {50,2,0}, {49,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {50,2,0}, {49,2,0}, {51,2,0}, {50,2,0}, {49,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {50,2,0}, {49,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {50,2,0}, {49,2,0}, {49,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {50,2,0}, {49,2,0}, {49,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {50,2,0}, {49,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {50,2,0}, {49,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {50,2,0}, {49,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {50,2,0}, {49,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {50,2,0}, {49,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {50,2,0}, {49,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {50,2,0}, {49,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {50,2,0}, {49,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {50,2,0}, {49,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {50,2,0}, {49,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {50,2,0}, {49,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {60,4,2}, {51,2,0}, {51,2,0}, {3,0,0}, {51,2,0}, {2,0,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {52,3,2}, {51,2,0}, {51,2,0}, {58,4,2}, {51,2,0}, {51,2,0}, {52,3,0}, {51,2,0}, {52,3,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {50,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {50,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {50,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,2}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {0,0,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {0,0,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {0,0,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {0,0,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {0,0,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {0,0,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {0,0,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {0,0,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {0,0,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {0,0,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {0,0,1}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {50,2,0}, {49,2,0}, {51,2,0}, {50,2,0}, {49,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {0,0,1}, {47,2,0}, {48,2,0}, {51,2,0}, {48,2,0}, {47,2,0}, {48,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {48,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {50,2,0}, {49,2,0}, {53,3,0}, {51,2,0}, {14,1,0}, {51,2,0}, {31,1,0}, {47,2,0}, {48,2,0}, {50,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {51,2,1}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {51,2,1}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {51,2,1}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {51,2,1}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {51,2,1}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {51,2,1}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {51,2,1}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {51,2,1}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {51,2,1}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {51,2,1}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {51,2,1}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {51,2,1}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {51,2,1}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {51,2,1}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {51,2,1}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {51,2,1}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,1}, {47,2,0}, {48,2,0}, {51,2,1}, {47,2,0}, {48,2,0}, {51,2,1}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {51,2,0}, {51,2,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {40,1,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {40,1,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {40,1,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {40,1,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {40,1,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {40,1,1}, {48,2,0}, {51,2,0}, {50,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,1}, {6,0,1}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,1}, {6,0,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {41,0,1}, {47,2,0}, {48,2,0}, {51,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {50,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,1}, {51,2,1}, {51,2,0}, {51,2,0}, {48,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {0,0,1}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,1}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {48,2,0}, {51,2,0}, {50,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {6,0,1}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {6,0,1}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,2}, {47,2,0}, {48,2,0}, {53,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {53,3,0}, {53,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,2}, {47,2,0}, {48,2,0}, {51,2,0}, {50,2,0}, {49,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {50,2,0}, {49,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {31,1,0}, {51,2,0}, {52,3,0}, {31,1,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {48,2,0}, {51,2,0}, {48,2,0}, {48,2,0}, {48,2,0}, {48,2,0}, {48,2,0}, {48,2,0}, {48,2,0}, {48,2,0}, {48,2,0}, {48,2,0}, {48,2,0}, {48,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {47,2,0}, {48,2,0}, {47,2,0}, {48,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {47,2,0}, {48,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {51,2,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {51,2,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {51,2,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {51,2,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {51,2,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {52,3,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,2}, {48,2,0}, {51,2,1}, {48,2,0}, {51,2,0}, {51,2,1}, {48,2,0}, {51,2,2}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {50,2,0}, {49,2,0}, {51,2,0}, {48,2,0}, {28,1,0}, {51,2,2}, {51,2,2}, {51,2,2}, {47,2,0}, {48,2,0}, {51,2,0}, {47,2,0}, {48,2,0}, {51,2,0}, {50,2,0}, {50,2,0}, {49,2,0}, {50,2,0}, {50,2,0}, {49,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {47,2,0}, {48,2,0}, {50,2,0}, {34,1,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {52,3,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {52,3,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {22,1,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {22,1,0}, {51,2,0}, {51,2,0}, {52,3,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {22,1,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,2}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {50,2,0}, {50,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {50,2,0}, {50,2,0}, {51,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {32,1,0}, {50,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {30,1,0}, {22,1,0}, {1,0,0}, {53,3,0}, {27,1,0}, {52,3,0}, {52,3,0}, {52,3,0}, {51,2,0}, {51,2,0}, {51,2,0}, {51,2,0}, {53,3,0}, {52,3,0}, {52,3,0}, {53,3,0}, {52,3,0}, {52,3,0}, {51,2,0}, {53,3,0}, {53,3,0}, {52,3,0}, {22,1,0}, {52,3,0}, {23,1,0}, {53,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {53,3,0}, {53,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {51,2,0}, {51,2,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {25,1,0}, {44,1,0}, {52,3,0}, {29,1,0}, {53,3,0}, {54,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {52,3,0}, {28,1,0}, {52,3,0}, {52,3,0}, {52,3,0}, {45,1,0}, {52,3,0}, {46,1,0}, {52,3,0}, {51,2,0}, {51,2,0}, {52,3,0}, {51,2,0}, {51,2,0}};
static const RegIns regIns[] = {
{0,0,"OpNop",0,0},
{1,0,"OpUndef",0,2},
{2,0,"OpSourceContinued",2,1},
{3,0,"OpSource",3,4},
{4,0,"OpSourceExtension",7,1},
{5,0,"OpName",8,2},
{6,0,"OpMemberName",10,3},
{7,0,"OpString",13,2},
{8,0,"OpLine",15,3},
{10,0,"OpExtension",18,1},
{11,0,"OpExtInstImport",19,2},
{12,0,"OpExtInst",21,5},
{14,0,"OpMemoryModel",26,2},
{15,0,"OpEntryPoint",28,4},
{16,0,"OpExecutionMode",32,2},
{17,0,"OpCapability",34,1},
{19,0,"OpTypeVoid",35,1},
{20,0,"OpTypeBool",36,1},
{21,0,"OpTypeInt",37,3},
{22,0,"OpTypeFloat",40,2},
{23,0,"OpTypeVector",42,3},
{24,0,"OpTypeMatrix",45,3},
{25,0,"OpTypeImage",48,9},
{26,0,"OpTypeSampler",57,1},
{27,0,"OpTypeSampledImage",58,2},
{28,0,"OpTypeArray",60,3},
{29,0,"OpTypeRuntimeArray",63,2},
{30,0,"OpTypeStruct",65,2},
{31,0,"OpTypeOpaque",67,2},
{32,0,"OpTypePointer",69,3},
{33,0,"OpTypeFunction",72,3},
{34,0,"OpTypeEvent",75,1},
{35,0,"OpTypeDeviceEvent",76,1},
{36,0,"OpTypeReserveId",77,1},
{37,0,"OpTypeQueue",78,1},
{38,0,"OpTypePipe",79,2},
{39,0,"OpTypeForwardPointer",81,2},
{41,0,"OpConstantTrue",83,2},
{42,0,"OpConstantFalse",85,2},
{43,0,"OpConstant",87,3},
{44,0,"OpConstantComposite",90,3},
{45,0,"OpConstantSampler",93,5},
{46,0,"OpConstantNull",98,2},
{48,0,"OpSpecConstantTrue",100,2},
{49,0,"OpSpecConstantFalse",102,2},
{50,0,"OpSpecConstant",104,3},
{51,0,"OpSpecConstantComposite",107,3},
{52,0,"OpSpecConstantOp",110,3},
{54,0,"OpFunction",113,4},
{55,0,"OpFunctionParameter",117,2},
{56,0,"OpFunctionEnd",119,0},
{57,0,"OpFunctionCall",119,4},
{59,0,"OpVariable",123,4},
{60,0,"OpImageTexelPointer",127,5},
{61,0,"OpLoad",132,4},
{62,0,"OpStore",136,3},
{63,0,"OpCopyMemory",139,4},
{64,0,"OpCopyMemorySized",143,5},
{65,0,"OpAccessChain",148,4},
{66,0,"OpInBoundsAccessChain",152,4},
{67,0,"OpPtrAccessChain",156,5},
{68,0,"OpArrayLength",161,4},
{69,0,"OpGenericPtrMemSemantics",165,3},
{70,0,"OpInBoundsPtrAccessChain",168,5},
{71,0,"OpDecorate",173,2},
{72,0,"OpMemberDecorate",175,3},
{73,0,"OpDecorationGroup",178,1},
{74,0,"OpGroupDecorate",179,2},
{75,0,"OpGroupMemberDecorate",181,2},
{77,0,"OpVectorExtractDynamic",183,4},
{78,0,"OpVectorInsertDynamic",187,5},
{79,0,"OpVectorShuffle",192,5},
{80,0,"OpCompositeConstruct",197,3},
{81,0,"OpCompositeExtract",200,4},
{82,0,"OpCompositeInsert",204,5},
{83,0,"OpCopyObject",209,3},
{84,0,"OpTranspose",212,3},
{86,0,"OpSampledImage",215,4},
{87,0,"OpImageSampleImplicitLod",219,5},
{88,0,"OpImageSampleExplicitLod",224,5},
{89,0,"OpImageSampleDrefImplicitLod",229,6},
{90,0,"OpImageSampleDrefExplicitLod",235,6},
{91,0,"OpImageSampleProjImplicitLod",241,5},
{92,0,"OpImageSampleProjExplicitLod",246,5},
{93,0,"OpImageSampleProjDrefImplicitLod",251,6},
{94,0,"OpImageSampleProjDrefExplicitLod",257,6},
{95,0,"OpImageFetch",263,5},
{96,0,"OpImageGather",268,6},
{97,0,"OpImageDrefGather",274,6},
{98,0,"OpImageRead",280,5},
{99,0,"OpImageWrite",285,4},
{100,0,"OpImage",289,3},
{101,0,"OpImageQueryFormat",292,3},
{102,0,"OpImageQueryOrder",295,3},
{103,0,"OpImageQuerySizeLod",298,4},
{104,0,"OpImageQuerySize",302,3},
{105,0,"OpImageQueryLod",305,4},
{106,0,"OpImageQueryLevels",309,3},
{107,0,"OpImageQuerySamples",312,3},
{109,0,"OpConvertFToU",315,3},
{110,0,"OpConvertFToS",318,3},
{111,0,"OpConvertSToF",321,3},
{112,0,"OpConvertUToF",324,3},
{113,0,"OpUConvert",327,3},
{114,0,"OpSConvert",330,3},
{115,0,"OpFConvert",333,3},
{116,0,"OpQuantizeToF16",336,3},
{117,0,"OpConvertPtrToU",339,3},
{118,0,"OpSatConvertSToU",342,3},
{119,0,"OpSatConvertUToS",345,3},
{120,0,"OpConvertUToPtr",348,3},
{121,0,"OpPtrCastToGeneric",351,3},
{122,0,"OpGenericCastToPtr",354,3},
{123,0,"OpGenericCastToPtrExplicit",357,4},
{124,0,"OpBitcast",361,3},
{126,0,"OpSNegate",364,3},
{127,0,"OpFNegate",367,3},
{128,0,"OpIAdd",370,4},
{129,0,"OpFAdd",374,4},
{130,0,"OpISub",378,4},
{131,0,"OpFSub",382,4},
{132,0,"OpIMul",386,4},
{133,0,"OpFMul",390,4},
{134,0,"OpUDiv",394,4},
{135,0,"OpSDiv",398,4},
{136,0,"OpFDiv",402,4},
{137,0,"OpUMod",406,4},
{138,0,"OpSRem",410,4},
{139,0,"OpSMod",414,4},
{140,0,"OpFRem",418,4},
{141,0,"OpFMod",422,4},
{142,0,"OpVectorTimesScalar",426,4},
{143,0,"OpMatrixTimesScalar",430,4},
{144,0,"OpVectorTimesMatrix",434,4},
{145,0,"OpMatrixTimesVector",438,4},
{146,0,"OpMatrixTimesMatrix",442,4},
{147,0,"OpOuterProduct",446,4},
{148,0,"OpDot",450,4},
{149,0,"OpIAddCarry",454,4},
{150,0,"OpISubBorrow",458,4},
{151,0,"OpUMulExtended",462,4},
{152,0,"OpSMulExtended",466,4},
{154,0,"OpAny",470,3},
{155,0,"OpAll",473,3},
{156,0,"OpIsNan",476,3},
{157,0,"OpIsInf",479,3},
{158,0,"OpIsFinite",482,3},
{159,0,"OpIsNormal",485,3},
{160,0,"OpSignBitSet",488,3},
{161,0,"OpLessOrGreater",491,4},
{162,0,"OpOrdered",495,4},
{163,0,"OpUnordered",499,4},
{164,0,"OpLogicalEqual",503,4},
{165,0,"OpLogicalNotEqual",507,4},
{166,0,"OpLogicalOr",511,4},
{167,0,"OpLogicalAnd",515,4},
{168,0,"OpLogicalNot",519,3},
{169,0,"OpSelect",522,5},
{170,0,"OpIEqual",527,4},
{171,0,"OpINotEqual",531,4},
{172,0,"OpUGreaterThan",535,4},
{173,0,"OpSGreaterThan",539,4},
{174,0,"OpUGreaterThanEqual",543,4},
{175,0,"OpSGreaterThanEqual",547,4},
{176,0,"OpULessThan",551,4},
{177,0,"OpSLessThan",555,4},
{178,0,"OpULessThanEqual",559,4},
{179,0,"OpSLessThanEqual",563,4},
{180,0,"OpFOrdEqual",567,4},
{181,0,"OpFUnordEqual",571,4},
{182,0,"OpFOrdNotEqual",575,4},
{183,0,"OpFUnordNotEqual",579,4},
{184,0,"OpFOrdLessThan",583,4},
{185,0,"OpFUnordLessThan",587,4},
{186,0,"OpFOrdGreaterThan",591,4},
{187,0,"OpFUnordGreaterThan",595,4},
{188,0,"OpFOrdLessThanEqual",599,4},
{189,0,"OpFUnordLessThanEqual",603,4},
{190,0,"OpFOrdGreaterThanEqual",607,4},
{191,0,"OpFUnordGreaterThanEqual",611,4},
{194,0,"OpShiftRightLogical",615,4},
{195,0,"OpShiftRightArithmetic",619,4},
{196,0,"OpShiftLeftLogical",623,4},
{197,0,"OpBitwiseOr",627,4},
{198,0,"OpBitwiseXor",631,4},
{199,0,"OpBitwiseAnd",635,4},
{200,0,"OpNot",639,3},
{201,0,"OpBitFieldInsert",642,6},
{202,0,"OpBitFieldSExtract",648,5},
{203,0,"OpBitFieldUExtract",653,5},
{204,0,"OpBitReverse",658,3},
{205,0,"OpBitCount",661,3},
{207,0,"OpDPdx",664,3},
{208,0,"OpDPdy",667,3},
{209,0,"OpFwidth",670,3},
{210,0,"OpDPdxFine",673,3},
{211,0,"OpDPdyFine",676,3},
{212,0,"OpFwidthFine",679,3},
{213,0,"OpDPdxCoarse",682,3},
{214,0,"OpDPdyCoarse",685,3},
{215,0,"OpFwidthCoarse",688,3},
{218,0,"OpEmitVertex",691,0},
{219,0,"OpEndPrimitive",691,0},
{220,0,"OpEmitStreamVertex",691,1},
{221,0,"OpEndStreamPrimitive",692,1},
{224,0,"OpControlBarrier",693,3},
{225,0,"OpMemoryBarrier",696,2},
{227,0,"OpAtomicLoad",698,5},
{228,0,"OpAtomicStore",703,4},
{229,0,"OpAtomicExchange",707,6},
{230,0,"OpAtomicCompareExchange",713,8},
{231,0,"OpAtomicCompareExchangeWeak",721,8},
{232,0,"OpAtomicIIncrement",729,5},
{233,0,"OpAtomicIDecrement",734,5},
{234,0,"OpAtomicIAdd",739,6},
{235,0,"OpAtomicISub",745,6},
{236,0,"OpAtomicSMin",751,6},
{237,0,"OpAtomicUMin",757,6},
{238,0,"OpAtomicSMax",763,6},
{239,0,"OpAtomicUMax",769,6},
{240,0,"OpAtomicAnd",775,6},
{241,0,"OpAtomicOr",781,6},
{242,0,"OpAtomicXor",787,6},
{245,0,"OpPhi",793,3},
{246,0,"OpLoopMerge",796,3},
{247,0,"OpSelectionMerge",799,2},
{248,0,"OpLabel",801,1},
{249,0,"OpBranch",802,1},
{250,0,"OpBranchConditional",803,4},
{251,0,"OpSwitch",807,3},
{252,0,"OpKill",810,0},
{253,0,"OpReturn",810,0},
{254,0,"OpReturnValue",810,1},
{255,0,"OpUnreachable",811,0},
{256,0,"OpLifetimeStart",811,2},
{257,0,"OpLifetimeStop",813,2},
{259,0,"OpGroupAsyncCopy",815,8},
{260,0,"OpGroupWaitEvents",823,3},
{261,0,"OpGroupAll",826,4},
{262,0,"OpGroupAny",830,4},
{263,0,"OpGroupBroadcast",834,5},
{264,0,"OpGroupIAdd",839,5},
{265,0,"OpGroupFAdd",844,5},
{266,0,"OpGroupFMin",849,5},
{267,0,"OpGroupUMin",854,5},
{268,0,"OpGroupSMin",859,5},
{269,0,"OpGroupFMax",864,5},
{270,0,"OpGroupUMax",869,5},
{271,0,"OpGroupSMax",874,5},
{274,0,"OpReadPipe",879,6},
{275,0,"OpWritePipe",885,6},
{276,0,"OpReservedReadPipe",891,8},
{277,0,"OpReservedWritePipe",899,8},
{278,0,"OpReserveReadPipePackets",907,6},
{279,0,"OpReserveWritePipePackets",913,6},
{280,0,"OpCommitReadPipe",919,4},
{281,0,"OpCommitWritePipe",923,4},
{282,0,"OpIsValidReserveId",927,3},
{283,0,"OpGetNumPipePackets",930,5},
{284,0,"OpGetMaxPipePackets",935,5},
{285,0,"OpGroupReserveReadPipePackets",940,7},
{286,0,"OpGroupReserveWritePipePackets",947,7},
{287,0,"OpGroupCommitReadPipe",954,5},
{288,0,"OpGroupCommitWritePipe",959,5},
{291,0,"OpEnqueueMarker",964,6},
{292,0,"OpEnqueueKernel",970,13},
{293,0,"OpGetKernelNDrangeSubGroupCount",983,7},
{294,0,"OpGetKernelNDrangeMaxSubGroupSize",990,7},
{295,0,"OpGetKernelWorkGroupSize",997,6},
{296,0,"OpGetKernelPreferredWorkGroupSizeMultiple",1003,6},
{297,0,"OpRetainEvent",1009,1},
{298,0,"OpReleaseEvent",1010,1},
{299,0,"OpCreateUserEvent",1011,2},
{300,0,"OpIsValidEvent",1013,3},
{301,0,"OpSetUserEventStatus",1016,2},
{302,0,"OpCaptureEventProfilingInfo",1018,3},
{303,0,"OpGetDefaultQueue",1021,2},
{304,0,"OpBuildNDRange",1023,5},
{305,0,"OpImageSparseSampleImplicitLod",1028,5},
{306,0,"OpImageSparseSampleExplicitLod",1033,5},
{307,0,"OpImageSparseSampleDrefImplicitLod",1038,6},
{308,0,"OpImageSparseSampleDrefExplicitLod",1044,6},
{309,0,"OpImageSparseSampleProjImplicitLod",1050,5},
{310,0,"OpImageSparseSampleProjExplicitLod",1055,5},
{311,0,"OpImageSparseSampleProjDrefImplicitLod",1060,6},
{312,0,"OpImageSparseSampleProjDrefExplicitLod",1066,6},
{313,0,"OpImageSparseFetch",1072,5},
{314,0,"OpImageSparseGather",1077,6},
{315,0,"OpImageSparseDrefGather",1083,6},
{316,0,"OpImageSparseTexelsResident",1089,3},
{317,0,"OpNoLine",1092,0},
{318,0,"OpAtomicFlagTestAndSet",1092,5},
{319,0,"OpAtomicFlagClear",1097,3},
{320,0,"OpImageSparseRead",1100,5},
{321,0,"OpSizeOf",1105,3},
{322,0,"OpTypePipeStorage",1108,1},
{323,0,"OpConstantPipeStorage",1109,5},
{324,0,"OpCreatePipeFromPipeStorage",1114,3},
{325,0,"OpGetKernelLocalSizeForSubgroupCount",1117,7},
{326,0,"OpGetKernelMaxNumSubgroups",1124,6},
{327,0,"OpTypeNamedBarrier",1130,1},
{328,0,"OpNamedBarrierInitialize",1131,3},
{329,0,"OpMemoryNamedBarrier",1134,3},
{330,0,"OpModuleProcessed",1137,1},
{331,0,"OpExecutionModeId",1138,2},
{332,0,"OpDecorateId",1140,2},
{333,0,"OpGroupNonUniformElect",1142,3},
{334,0,"OpGroupNonUniformAll",1145,4},
{335,0,"OpGroupNonUniformAny",1149,4},
{336,0,"OpGroupNonUniformAllEqual",1153,4},
{337,0,"OpGroupNonUniformBroadcast",1157,5},
{338,0,"OpGroupNonUniformBroadcastFirst",1162,4},
{339,0,"OpGroupNonUniformBallot",1166,4},
{340,0,"OpGroupNonUniformInverseBallot",1170,4},
{341,0,"OpGroupNonUniformBallotBitExtract",1174,5},
{342,0,"OpGroupNonUniformBallotBitCount",1179,5},
{343,0,"OpGroupNonUniformBallotFindLSB",1184,4},
{344,0,"OpGroupNonUniformBallotFindMSB",1188,4},
{345,0,"OpGroupNonUniformShuffle",1192,5},
{346,0,"OpGroupNonUniformShuffleXor",1197,5},
{347,0,"OpGroupNonUniformShuffleUp",1202,5},
{348,0,"OpGroupNonUniformShuffleDown",1207,5},
{349,0,"OpGroupNonUniformIAdd",1212,6},
{350,0,"OpGroupNonUniformFAdd",1218,6},
{351,0,"OpGroupNonUniformIMul",1224,6},
{352,0,"OpGroupNonUniformFMul",1230,6},
{353,0,"OpGroupNonUniformSMin",1236,6},
{354,0,"OpGroupNonUniformUMin",1242,6},
{355,0,"OpGroupNonUniformFMin",1248,6},
{356,0,"OpGroupNonUniformSMax",1254,6},
{357,0,"OpGroupNonUniformUMax",1260,6},
{358,0,"OpGroupNonUniformFMax",1266,6},
{359,0,"OpGroupNonUniformBitwiseAnd",1272,6},
{360,0,"OpGroupNonUniformBitwiseOr",1278,6},
{361,0,"OpGroupNonUniformBitwiseXor",1284,6},
{362,0,"OpGroupNonUniformLogicalAnd",1290,6},
{363,0,"OpGroupNonUniformLogicalOr",1296,6},
{364,0,"OpGroupNonUniformLogicalXor",1302,6},
{365,0,"OpGroupNonUniformQuadBroadcast",1308,5},
{366,0,"OpGroupNonUniformQuadSwap",1313,5},
{400,0,"OpCopyLogical",1318,3},
{401,0,"OpPtrEqual",1321,4},
{402,0,"OpPtrNotEqual",1325,4},
{403,0,"OpPtrDiff",1329,4},
{4160,0,"OpColorAttachmentReadEXT",1333,4},
{4161,0,"OpDepthAttachmentReadEXT",1337,3},
{4162,0,"OpStencilAttachmentReadEXT",1340,3},
{4416,0,"OpTerminateInvocation",1343,0},
{4421,0,"OpSubgroupBallotKHR",1343,3},
{4422,0,"OpSubgroupFirstInvocationKHR",1346,3},
{4428,0,"OpSubgroupAllKHR",1349,3},
{4429,0,"OpSubgroupAnyKHR",1352,3},
{4430,0,"OpSubgroupAllEqualKHR",1355,3},
{4431,0,"OpGroupNonUniformRotateKHR",1358,6},
{4432,0,"OpSubgroupReadInvocationKHR",1364,4},
{4445,0,"OpTraceRayKHR",1368,11},
{4446,0,"OpExecuteCallableKHR",1379,2},
{4447,0,"OpConvertUToAccelerationStructureKHR",1381,3},
{4448,0,"OpIgnoreIntersectionKHR",1384,0},
{4449,0,"OpTerminateRayKHR",1384,0},
{4450,0,"OpSDotKHR",1384,5},
{4451,0,"OpUDotKHR",1389,5},
{4452,0,"OpSUDotKHR",1394,5},
{4453,0,"OpSDotAccSatKHR",1399,6},
{4454,0,"OpUDotAccSatKHR",1405,6},
{4455,0,"OpSUDotAccSatKHR",1411,6},
{4456,0,"OpTypeCooperativeMatrixKHR",1417,6},
{4457,0,"OpCooperativeMatrixLoadKHR",1423,6},
{4458,0,"OpCooperativeMatrixStoreKHR",1429,5},
{4459,0,"OpCooperativeMatrixMulAddKHR",1434,6},
{4460,0,"OpCooperativeMatrixLengthKHR",1440,3},
{4472,0,"OpTypeRayQueryKHR",1443,1},
{4473,0,"OpRayQueryInitializeKHR",1444,8},
{4474,0,"OpRayQueryTerminateKHR",1452,1},
{4475,0,"OpRayQueryGenerateIntersectionKHR",1453,2},
{4476,0,"OpRayQueryConfirmIntersectionKHR",1455,1},
{4477,0,"OpRayQueryProceedKHR",1456,3},
{4479,0,"OpRayQueryGetIntersectionTypeKHR",1459,4},
{4480,0,"OpImageSampleWeightedQCOM",1463,5},
{4481,0,"OpImageBoxFilterQCOM",1468,5},
{4482,0,"OpImageBlockMatchSSDQCOM",1473,7},
{4483,0,"OpImageBlockMatchSADQCOM",1480,7},
{5000,0,"OpGroupIAddNonUniformAMD",1487,5},
{5001,0,"OpGroupFAddNonUniformAMD",1492,5},
{5002,0,"OpGroupFMinNonUniformAMD",1497,5},
{5003,0,"OpGroupUMinNonUniformAMD",1502,5},
{5004,0,"OpGroupSMinNonUniformAMD",1507,5},
{5005,0,"OpGroupFMaxNonUniformAMD",1512,5},
{5006,0,"OpGroupUMaxNonUniformAMD",1517,5},
{5007,0,"OpGroupSMaxNonUniformAMD",1522,5},
{5011,0,"OpFragmentMaskFetchAMD",1527,4},
{5012,0,"OpFragmentFetchAMD",1531,5},
{5056,0,"OpReadClockKHR",1536,3},
{5075,0,"OpFinalizeNodePayloadsAMDX",1539,1},
{5078,0,"OpFinishWritingNodePayloadAMDX",1540,3},
{5090,0,"OpInitializeNodePayloadsAMDX",1543,4},
{5249,0,"OpHitObjectRecordHitMotionNV",1547,14},
{5250,0,"OpHitObjectRecordHitWithIndexMotionNV",1561,13},
{5251,0,"OpHitObjectRecordMissMotionNV",1574,7},
{5252,0,"OpHitObjectGetWorldToObjectNV",1581,3},
{5253,0,"OpHitObjectGetObjectToWorldNV",1584,3},
{5254,0,"OpHitObjectGetObjectRayDirectionNV",1587,3},
{5255,0,"OpHitObjectGetObjectRayOriginNV",1590,3},
{5256,0,"OpHitObjectTraceRayMotionNV",1593,13},
{5257,0,"OpHitObjectGetShaderRecordBufferHandleNV",1606,3},
{5258,0,"OpHitObjectGetShaderBindingTableRecordIndexNV",1609,3},
{5259,0,"OpHitObjectRecordEmptyNV",1612,1},
{5260,0,"OpHitObjectTraceRayNV",1613,12},
{5261,0,"OpHitObjectRecordHitNV",1625,13},
{5262,0,"OpHitObjectRecordHitWithIndexNV",1638,12},
{5263,0,"OpHitObjectRecordMissNV",1650,6},
{5264,0,"OpHitObjectExecuteShaderNV",1656,2},
{5265,0,"OpHitObjectGetCurrentTimeNV",1658,3},
{5266,0,"OpHitObjectGetAttributesNV",1661,2},
{5267,0,"OpHitObjectGetHitKindNV",1663,3},
{5268,0,"OpHitObjectGetPrimitiveIndexNV",1666,3},
{5269,0,"OpHitObjectGetGeometryIndexNV",1669,3},
{5270,0,"OpHitObjectGetInstanceIdNV",1672,3},
{5271,0,"OpHitObjectGetInstanceCustomIndexNV",1675,3},
{5272,0,"OpHitObjectGetWorldRayDirectionNV",1678,3},
{5273,0,"OpHitObjectGetWorldRayOriginNV",1681,3},
{5274,0,"OpHitObjectGetRayTMaxNV",1684,3},
{5275,0,"OpHitObjectGetRayTMinNV",1687,3},
{5276,0,"OpHitObjectIsEmptyNV",1690,3},
{5277,0,"OpHitObjectIsHitNV",1693,3},
{5278,0,"OpHitObjectIsMissNV",1696,3},
{5279,0,"OpReorderThreadWithHitObjectNV",1699,3},
{5280,0,"OpReorderThreadWithHintNV",1702,2},
{5281,0,"OpTypeHitObjectNV",1704,1},
{5283,0,"OpImageSampleFootprintNV",1705,7},
{5294,0,"OpEmitMeshTasksEXT",1712,4},
{5295,0,"OpSetMeshOutputsEXT",1716,2},
{5296,0,"OpGroupNonUniformPartitionNV",1718,3},
{5299,0,"OpWritePackedPrimitiveIndices4x8NV",1721,2},
{5334,0,"OpReportIntersectionKHR",1723,4},
{5335,0,"OpIgnoreIntersectionNV",1727,0},
{5336,0,"OpTerminateRayNV",1727,0},
{5337,0,"OpTraceNV",1727,11},
{5338,0,"OpTraceMotionNV",1738,12},
{5339,0,"OpTraceRayMotionNV",1750,12},
{5340,0,"OpRayQueryGetIntersectionTriangleVertexPositionsKHR",1762,4},
{5341,0,"OpTypeAccelerationStructureKHR",1766,1},
{5344,0,"OpExecuteCallableNV",1767,2},
{5358,0,"OpTypeCooperativeMatrixNV",1769,5},
{5359,0,"OpCooperativeMatrixLoadNV",1774,6},
{5360,0,"OpCooperativeMatrixStoreNV",1780,5},
{5361,0,"OpCooperativeMatrixMulAddNV",1785,5},
{5362,0,"OpCooperativeMatrixLengthNV",1790,3},
{5364,0,"OpBeginInvocationInterlockEXT",1793,0},
{5365,0,"OpEndInvocationInterlockEXT",1793,0},
{5380,0,"OpDemoteToHelperInvocationEXT",1793,0},
{5381,0,"OpIsHelperInvocationEXT",1793,2},
{5391,0,"OpConvertUToImageNV",1795,3},
{5392,0,"OpConvertUToSamplerNV",1798,3},
{5393,0,"OpConvertImageToUNV",1801,3},
{5394,0,"OpConvertSamplerToUNV",1804,3},
{5395,0,"OpConvertUToSampledImageNV",1807,3},
{5396,0,"OpConvertSampledImageToUNV",1810,3},
{5397,0,"OpSamplerImageAddressingModeNV",1813,1},
{5571,0,"OpSubgroupShuffleINTEL",1814,4},
{5572,0,"OpSubgroupShuffleDownINTEL",1818,5},
{5573,0,"OpSubgroupShuffleUpINTEL",1823,5},
{5574,0,"OpSubgroupShuffleXorINTEL",1828,4},
{5575,0,"OpSubgroupBlockReadINTEL",1832,3},
{5576,0,"OpSubgroupBlockWriteINTEL",1835,2},
{5577,0,"OpSubgroupImageBlockReadINTEL",1837,4},
{5578,0,"OpSubgroupImageBlockWriteINTEL",1841,3},
{5580,0,"OpSubgroupImageMediaBlockReadINTEL",1844,6},
{5581,0,"OpSubgroupImageMediaBlockWriteINTEL",1850,5},
{5585,0,"OpUCountLeadingZerosINTEL",1855,3},
{5586,0,"OpUCountTrailingZerosINTEL",1858,3},
{5587,0,"OpAbsISubINTEL",1861,4},
{5588,0,"OpAbsUSubINTEL",1865,4},
{5589,0,"OpIAddSatINTEL",1869,4},
{5590,0,"OpUAddSatINTEL",1873,4},
{5591,0,"OpIAverageINTEL",1877,4},
{5592,0,"OpUAverageINTEL",1881,4},
{5593,0,"OpIAverageRoundedINTEL",1885,4},
{5594,0,"OpUAverageRoundedINTEL",1889,4},
{5595,0,"OpISubSatINTEL",1893,4},
{5596,0,"OpUSubSatINTEL",1897,4},
{5597,0,"OpIMul32x16INTEL",1901,4},
{5598,0,"OpUMul32x16INTEL",1905,4},
{5600,0,"OpConstantFunctionPointerINTEL",1909,3},
{5601,0,"OpFunctionPointerCallINTEL",1912,3},
{5609,0,"OpAsmTargetINTEL",1915,3},
{5610,0,"OpAsmINTEL",1918,6},
{5611,0,"OpAsmCallINTEL",1924,4},
{5614,0,"OpAtomicFMinEXT",1928,6},
{5615,0,"OpAtomicFMaxEXT",1934,6},
{5630,0,"OpAssumeTrueKHR",1940,1},
{5631,0,"OpExpectKHR",1941,4},
{5632,0,"OpDecorateString",1945,2},
{5633,0,"OpMemberDecorateString",1947,3},
{5699,0,"OpVmeImageINTEL",1950,4},
{5700,0,"OpTypeVmeImageINTEL",1954,2},
{5701,0,"OpTypeAvcImePayloadINTEL",1956,1},
{5702,0,"OpTypeAvcRefPayloadINTEL",1957,1},
{5703,0,"OpTypeAvcSicPayloadINTEL",1958,1},
{5704,0,"OpTypeAvcMcePayloadINTEL",1959,1},
{5705,0,"OpTypeAvcMceResultINTEL",1960,1},
{5706,0,"OpTypeAvcImeResultINTEL",1961,1},
{5707,0,"OpTypeAvcImeResultSingleReferenceStreamoutINTEL",1962,1},
{5708,0,"OpTypeAvcImeResultDualReferenceStreamoutINTEL",1963,1},
{5709,0,"OpTypeAvcImeSingleReferenceStreaminINTEL",1964,1},
{5710,0,"OpTypeAvcImeDualReferenceStreaminINTEL",1965,1},
{5711,0,"OpTypeAvcRefResultINTEL",1966,1},
{5712,0,"OpTypeAvcSicResultINTEL",1967,1},
{5713,0,"OpSubgroupAvcMceGetDefaultInterBaseMultiReferencePenaltyINTEL",1968,4},
{5714,0,"OpSubgroupAvcMceSetInterBaseMultiReferencePenaltyINTEL",1972,4},
{5715,0,"OpSubgroupAvcMceGetDefaultInterShapePenaltyINTEL",1976,4},
{5716,0,"OpSubgroupAvcMceSetInterShapePenaltyINTEL",1980,4},
{5717,0,"OpSubgroupAvcMceGetDefaultInterDirectionPenaltyINTEL",1984,4},
{5718,0,"OpSubgroupAvcMceSetInterDirectionPenaltyINTEL",1988,4},
{5719,0,"OpSubgroupAvcMceGetDefaultIntraLumaShapePenaltyINTEL",1992,4},
{5720,0,"OpSubgroupAvcMceGetDefaultInterMotionVectorCostTableINTEL",1996,4},
{5721,0,"OpSubgroupAvcMceGetDefaultHighPenaltyCostTableINTEL",2000,2},
{5722,0,"OpSubgroupAvcMceGetDefaultMediumPenaltyCostTableINTEL",2002,2},
{5723,0,"OpSubgroupAvcMceGetDefaultLowPenaltyCostTableINTEL",2004,2},
{5724,0,"OpSubgroupAvcMceSetMotionVectorCostFunctionINTEL",2006,6},
{5725,0,"OpSubgroupAvcMceGetDefaultIntraLumaModePenaltyINTEL",2012,4},
{5726,0,"OpSubgroupAvcMceGetDefaultNonDcLumaIntraPenaltyINTEL",2016,2},
{5727,0,"OpSubgroupAvcMceGetDefaultIntraChromaModeBasePenaltyINTEL",2018,2},
{5728,0,"OpSubgroupAvcMceSetAcOnlyHaarINTEL",2020,3},
{5729,0,"OpSubgroupAvcMceSetSourceInterlacedFieldPolarityINTEL",2023,4},
{5730,0,"OpSubgroupAvcMceSetSingleReferenceInterlacedFieldPolarityINTEL",2027,4},
{5731,0,"OpSubgroupAvcMceSetDualReferenceInterlacedFieldPolaritiesINTEL",2031,5},
{5732,0,"OpSubgroupAvcMceConvertToImePayloadINTEL",2036,3},
{5733,0,"OpSubgroupAvcMceConvertToImeResultINTEL",2039,3},
{5734,0,"OpSubgroupAvcMceConvertToRefPayloadINTEL",2042,3},
{5735,0,"OpSubgroupAvcMceConvertToRefResultINTEL",2045,3},
{5736,0,"OpSubgroupAvcMceConvertToSicPayloadINTEL",2048,3},
{5737,0,"OpSubgroupAvcMceConvertToSicResultINTEL",2051,3},
{5738,0,"OpSubgroupAvcMceGetMotionVectorsINTEL",2054,3},
{5739,0,"OpSubgroupAvcMceGetInterDistortionsINTEL",2057,3},
{5740,0,"OpSubgroupAvcMceGetBestInterDistortionsINTEL",2060,3},
{5741,0,"OpSubgroupAvcMceGetInterMajorShapeINTEL",2063,3},
{5742,0,"OpSubgroupAvcMceGetInterMinorShapeINTEL",2066,3},
{5743,0,"OpSubgroupAvcMceGetInterDirectionsINTEL",2069,3},
{5744,0,"OpSubgroupAvcMceGetInterMotionVectorCountINTEL",2072,3},
{5745,0,"OpSubgroupAvcMceGetInterReferenceIdsINTEL",2075,3},
{5746,0,"OpSubgroupAvcMceGetInterReferenceInterlacedFieldPolaritiesINTEL",2078,5},
{5747,0,"OpSubgroupAvcImeInitializeINTEL",2083,5},
{5748,0,"OpSubgroupAvcImeSetSingleReferenceINTEL",2088,5},
{5749,0,"OpSubgroupAvcImeSetDualReferenceINTEL",2093,6},
{5750,0,"OpSubgroupAvcImeRefWindowSizeINTEL",2099,4},
{5751,0,"OpSubgroupAvcImeAdjustRefOffsetINTEL",2103,6},
{5752,0,"OpSubgroupAvcImeConvertToMcePayloadINTEL",2109,3},
{5753,0,"OpSubgroupAvcImeSetMaxMotionVectorCountINTEL",2112,4},
{5754,0,"OpSubgroupAvcImeSetUnidirectionalMixDisableINTEL",2116,3},
{5755,0,"OpSubgroupAvcImeSetEarlySearchTerminationThresholdINTEL",2119,4},
{5756,0,"OpSubgroupAvcImeSetWeightedSadINTEL",2123,4},
{5757,0,"OpSubgroupAvcImeEvaluateWithSingleReferenceINTEL",2127,5},
{5758,0,"OpSubgroupAvcImeEvaluateWithDualReferenceINTEL",2132,6},
{5759,0,"OpSubgroupAvcImeEvaluateWithSingleReferenceStreaminINTEL",2138,6},
{5760,0,"OpSubgroupAvcImeEvaluateWithDualReferenceStreaminINTEL",2144,7},
{5761,0,"OpSubgroupAvcImeEvaluateWithSingleReferenceStreamoutINTEL",2151,5},
{5762,0,"OpSubgroupAvcImeEvaluateWithDualReferenceStreamoutINTEL",2156,6},
{5763,0,"OpSubgroupAvcImeEvaluateWithSingleReferenceStreaminoutINTEL",2162,6},
{5764,0,"OpSubgroupAvcImeEvaluateWithDualReferenceStreaminoutINTEL",2168,7},
{5765,0,"OpSubgroupAvcImeConvertToMceResultINTEL",2175,3},
{5766,0,"OpSubgroupAvcImeGetSingleReferenceStreaminINTEL",2178,3},
{5767,0,"OpSubgroupAvcImeGetDualReferenceStreaminINTEL",2181,3},
{5768,0,"OpSubgroupAvcImeStripSingleReferenceStreamoutINTEL",2184,3},
{5769,0,"OpSubgroupAvcImeStripDualReferenceStreamoutINTEL",2187,3},
{5770,0,"OpSubgroupAvcImeGetStreamoutSingleReferenceMajorShapeMotionVectorsINTEL",2190,4},
{5771,0,"OpSubgroupAvcImeGetStreamoutSingleReferenceMajorShapeDistortionsINTEL",2194,4},
{5772,0,"OpSubgroupAvcImeGetStreamoutSingleReferenceMajorShapeReferenceIdsINTEL",2198,4},
{5773,0,"OpSubgroupAvcImeGetStreamoutDualReferenceMajorShapeMotionVectorsINTEL",2202,5},
{5774,0,"OpSubgroupAvcImeGetStreamoutDualReferenceMajorShapeDistortionsINTEL",2207,5},
{5775,0,"OpSubgroupAvcImeGetStreamoutDualReferenceMajorShapeReferenceIdsINTEL",2212,5},
{5776,0,"OpSubgroupAvcImeGetBorderReachedINTEL",2217,4},
{5777,0,"OpSubgroupAvcImeGetTruncatedSearchIndicationINTEL",2221,3},
{5778,0,"OpSubgroupAvcImeGetUnidirectionalEarlySearchTerminationINTEL",2224,3},
{5779,0,"OpSubgroupAvcImeGetWeightingPatternMinimumMotionVectorINTEL",2227,3},
{5780,0,"OpSubgroupAvcImeGetWeightingPatternMinimumDistortionINTEL",2230,3},
{5781,0,"OpSubgroupAvcFmeInitializeINTEL",2233,9},
{5782,0,"OpSubgroupAvcBmeInitializeINTEL",2242,10},
{5783,0,"OpSubgroupAvcRefConvertToMcePayloadINTEL",2252,3},
{5784,0,"OpSubgroupAvcRefSetBidirectionalMixDisableINTEL",2255,3},
{5785,0,"OpSubgroupAvcRefSetBilinearFilterEnableINTEL",2258,3},
{5786,0,"OpSubgroupAvcRefEvaluateWithSingleReferenceINTEL",2261,5},
{5787,0,"OpSubgroupAvcRefEvaluateWithDualReferenceINTEL",2266,6},
{5788,0,"OpSubgroupAvcRefEvaluateWithMultiReferenceINTEL",2272,5},
{5789,0,"OpSubgroupAvcRefEvaluateWithMultiReferenceInterlacedINTEL",2277,6},
{5790,0,"OpSubgroupAvcRefConvertToMceResultINTEL",2283,3},
{5791,0,"OpSubgroupAvcSicInitializeINTEL",2286,3},
{5792,0,"OpSubgroupAvcSicConfigureSkcINTEL",2289,8},
{5793,0,"OpSubgroupAvcSicConfigureIpeLumaINTEL",2297,10},
{5794,0,"OpSubgroupAvcSicConfigureIpeLumaChromaINTEL",2307,13},
{5795,0,"OpSubgroupAvcSicGetMotionVectorMaskINTEL",2320,4},
{5796,0,"OpSubgroupAvcSicConvertToMcePayloadINTEL",2324,3},
{5797,0,"OpSubgroupAvcSicSetIntraLumaShapePenaltyINTEL",2327,4},
{5798,0,"OpSubgroupAvcSicSetIntraLumaModeCostFunctionINTEL",2331,6},
{5799,0,"OpSubgroupAvcSicSetIntraChromaModeCostFunctionINTEL",2337,4},
{5800,0,"OpSubgroupAvcSicSetBilinearFilterEnableINTEL",2341,3},
{5801,0,"OpSubgroupAvcSicSetSkcForwardTransformEnableINTEL",2344,4},
{5802,0,"OpSubgroupAvcSicSetBlockBasedRawSkipSadINTEL",2348,4},
{5803,0,"OpSubgroupAvcSicEvaluateIpeINTEL",2352,4},
{5804,0,"OpSubgroupAvcSicEvaluateWithSingleReferenceINTEL",2356,5},
{5805,0,"OpSubgroupAvcSicEvaluateWithDualReferenceINTEL",2361,6},
{5806,0,"OpSubgroupAvcSicEvaluateWithMultiReferenceINTEL",2367,5},
{5807,0,"OpSubgroupAvcSicEvaluateWithMultiReferenceInterlacedINTEL",2372,6},
{5808,0,"OpSubgroupAvcSicConvertToMceResultINTEL",2378,3},
{5809,0,"OpSubgroupAvcSicGetIpeLumaShapeINTEL",2381,3},
{5810,0,"OpSubgroupAvcSicGetBestIpeLumaDistortionINTEL",2384,3},
{5811,0,"OpSubgroupAvcSicGetBestIpeChromaDistortionINTEL",2387,3},
{5812,0,"OpSubgroupAvcSicGetPackedIpeLumaModesINTEL",2390,3},
{5813,0,"OpSubgroupAvcSicGetIpeChromaModeINTEL",2393,3},
{5814,0,"OpSubgroupAvcSicGetPackedSkcLumaCountThresholdINTEL",2396,3},
{5815,0,"OpSubgroupAvcSicGetPackedSkcLumaSumThresholdINTEL",2399,3},
{5816,0,"OpSubgroupAvcSicGetInterRawSadsINTEL",2402,3},
{5818,0,"OpVariableLengthArrayINTEL",2405,3},
{5819,0,"OpSaveMemoryINTEL",2408,2},
{5820,0,"OpRestoreMemoryINTEL",2410,1},
{5840,0,"OpArbitraryFloatSinCosPiINTEL",2411,9},
{5841,0,"OpArbitraryFloatCastINTEL",2420,8},
{5842,0,"OpArbitraryFloatCastFromIntINTEL",2428,8},
{5843,0,"OpArbitraryFloatCastToIntINTEL",2436,7},
{5846,0,"OpArbitraryFloatAddINTEL",2443,10},
{5847,0,"OpArbitraryFloatSubINTEL",2453,10},
{5848,0,"OpArbitraryFloatMulINTEL",2463,10},
{5849,0,"OpArbitraryFloatDivINTEL",2473,10},
{5850,0,"OpArbitraryFloatGTINTEL",2483,6},
{5851,0,"OpArbitraryFloatGEINTEL",2489,6},
{5852,0,"OpArbitraryFloatLTINTEL",2495,6},
{5853,0,"OpArbitraryFloatLEINTEL",2501,6},
{5854,0,"OpArbitraryFloatEQINTEL",2507,6},
{5855,0,"OpArbitraryFloatRecipINTEL",2513,8},
{5856,0,"OpArbitraryFloatRSqrtINTEL",2521,8},
{5857,0,"OpArbitraryFloatCbrtINTEL",2529,8},
{5858,0,"OpArbitraryFloatHypotINTEL",2537,10},
{5859,0,"OpArbitraryFloatSqrtINTEL",2547,8},
{5860,0,"OpArbitraryFloatLogINTEL",2555,8},
{5861,0,"OpArbitraryFloatLog2INTEL",2563,8},
{5862,0,"OpArbitraryFloatLog10INTEL",2571,8},
{5863,0,"OpArbitraryFloatLog1pINTEL",2579,8},
{5864,0,"OpArbitraryFloatExpINTEL",2587,8},
{5865,0,"OpArbitraryFloatExp2INTEL",2595,8},
{5866,0,"OpArbitraryFloatExp10INTEL",2603,8},
{5867,0,"OpArbitraryFloatExpm1INTEL",2611,8},
{5868,0,"OpArbitraryFloatSinINTEL",2619,8},
{5869,0,"OpArbitraryFloatCosINTEL",2627,8},
{5870,0,"OpArbitraryFloatSinCosINTEL",2635,8},
{5871,0,"OpArbitraryFloatSinPiINTEL",2643,8},
{5872,0,"OpArbitraryFloatCosPiINTEL",2651,8},
{5873,0,"OpArbitraryFloatASinINTEL",2659,8},
{5874,0,"OpArbitraryFloatASinPiINTEL",2667,8},
{5875,0,"OpArbitraryFloatACosINTEL",2675,8},
{5876,0,"OpArbitraryFloatACosPiINTEL",2683,8},
{5877,0,"OpArbitraryFloatATanINTEL",2691,8},
{5878,0,"OpArbitraryFloatATanPiINTEL",2699,8},
{5879,0,"OpArbitraryFloatATan2INTEL",2707,10},
{5880,0,"OpArbitraryFloatPowINTEL",2717,10},
{5881,0,"OpArbitraryFloatPowRINTEL",2727,10},
{5882,0,"OpArbitraryFloatPowNINTEL",2737,9},
{5887,0,"OpLoopControlINTEL",2746,1},
{5911,0,"OpAliasDomainDeclINTEL",2747,2},
{5912,0,"OpAliasScopeDeclINTEL",2749,3},
{5913,0,"OpAliasScopeListDeclINTEL",2752,2},
{5923,0,"OpFixedSqrtINTEL",2754,9},
{5924,0,"OpFixedRecipINTEL",2763,9},
{5925,0,"OpFixedRsqrtINTEL",2772,9},
{5926,0,"OpFixedSinINTEL",2781,9},
{5927,0,"OpFixedCosINTEL",2790,9},
{5928,0,"OpFixedSinCosINTEL",2799,9},
{5929,0,"OpFixedSinPiINTEL",2808,9},
{5930,0,"OpFixedCosPiINTEL",2817,9},
{5931,0,"OpFixedSinCosPiINTEL",2826,9},
{5932,0,"OpFixedLogINTEL",2835,9},
{5933,0,"OpFixedExpINTEL",2844,9},
{5934,0,"OpPtrCastToCrossWorkgroupINTEL",2853,3},
{5938,0,"OpCrossWorkgroupCastToPtrINTEL",2856,3},
{5946,0,"OpReadPipeBlockingINTEL",2859,4},
{5947,0,"OpWritePipeBlockingINTEL",2863,4},
{5949,0,"OpFPGARegINTEL",2867,4},
{6016,0,"OpRayQueryGetRayTMinKHR",2871,3},
{6017,0,"OpRayQueryGetRayFlagsKHR",2874,3},
{6018,0,"OpRayQueryGetIntersectionTKHR",2877,4},
{6019,0,"OpRayQueryGetIntersectionInstanceCustomIndexKHR",2881,4},
{6020,0,"OpRayQueryGetIntersectionInstanceIdKHR",2885,4},
{6021,0,"OpRayQueryGetIntersectionInstanceShaderBindingTableRecordOffsetKHR",2889,4},
{6022,0,"OpRayQueryGetIntersectionGeometryIndexKHR",2893,4},
{6023,0,"OpRayQueryGetIntersectionPrimitiveIndexKHR",2897,4},
{6024,0,"OpRayQueryGetIntersectionBarycentricsKHR",2901,4},
{6025,0,"OpRayQueryGetIntersectionFrontFaceKHR",2905,4},
{6026,0,"OpRayQueryGetIntersectionCandidateAABBOpaqueKHR",2909,3},
{6027,0,"OpRayQueryGetIntersectionObjectRayDirectionKHR",2912,4},
{6028,0,"OpRayQueryGetIntersectionObjectRayOriginKHR",2916,4},
{6029,0,"OpRayQueryGetWorldRayDirectionKHR",2920,3},
{6030,0,"OpRayQueryGetWorldRayOriginKHR",2923,3},
{6031,0,"OpRayQueryGetIntersectionObjectToWorldKHR",2926,4},
{6032,0,"OpRayQueryGetIntersectionWorldToObjectKHR",2930,4},
{6035,0,"OpAtomicFAddEXT",2934,6},
{6086,0,"OpTypeBufferSurfaceINTEL",2940,2},
{6090,0,"OpTypeStructContinuedINTEL",2942,1},
{6091,0,"OpConstantCompositeContinuedINTEL",2943,1},
{6092,0,"OpSpecConstantCompositeContinuedINTEL",2944,1},
{6116,0,"OpConvertFToBF16INTEL",2945,3},
{6117,0,"OpConvertBF16ToFINTEL",2948,3},
{6142,0,"OpControlBarrierArriveINTEL",2951,3},
{6143,0,"OpControlBarrierWaitINTEL",2954,3},
{6401,0,"OpGroupIMulKHR",2957,5},
{6402,0,"OpGroupFMulKHR",2962,5},
{6403,0,"OpGroupBitwiseAndKHR",2967,5},
{6404,0,"OpGroupBitwiseOrKHR",2972,5},
{6405,0,"OpGroupBitwiseXorKHR",2977,5},
{6406,0,"OpGroupLogicalAndKHR",2982,5},
{6407,0,"OpGroupLogicalOrKHR",2987,5},
{6408,0,"OpGroupLogicalXorKHR",2992,5},
{1,1,"Round",2997,1},
{2,1,"RoundEven",2998,1},
{3,1,"Trunc",2999,1},
{4,1,"FAbs",3000,1},
{5,1,"SAbs",3001,1},
{6,1,"FSign",3002,1},
{7,1,"SSign",3003,1},
{8,1,"Floor",3004,1},
{9,1,"Ceil",3005,1},
{10,1,"Fract",3006,1},
{11,1,"Radians",3007,1},
{12,1,"Degrees",3008,1},
{13,1,"Sin",3009,1},
{14,1,"Cos",3010,1},
{15,1,"Tan",3011,1},
{16,1,"Asin",3012,1},
{17,1,"Acos",3013,1},
{18,1,"Atan",3014,1},
{19,1,"Sinh",3015,1},
{20,1,"Cosh",3016,1},
{21,1,"Tanh",3017,1},
{22,1,"Asinh",3018,1},
{23,1,"Acosh",3019,1},
{24,1,"Atanh",3020,1},
{25,1,"Atan2",3021,2},
{26,1,"Pow",3023,2},
{27,1,"Exp",3025,1},
{28,1,"Log",3026,1},
{29,1,"Exp2",3027,1},
{30,1,"Log2",3028,1},
{31,1,"Sqrt",3029,1},
{32,1,"InverseSqrt",3030,1},
{33,1,"Determinant",3031,1},
{34,1,"MatrixInverse",3032,1},
{35,1,"Modf",3033,2},
{36,1,"ModfStruct",3035,1},
{37,1,"FMin",3036,2},
{38,1,"UMin",3038,2},
{39,1,"SMin",3040,2},
{40,1,"FMax",3042,2},
{41,1,"UMax",3044,2},
{42,1,"SMax",3046,2},
{43,1,"FClamp",3048,3},
{44,1,"UClamp",3051,3},
{45,1,"SClamp",3054,3},
{46,1,"FMix",3057,3},
{47,1,"IMix",3060,3},
{48,1,"Step",3063,2},
{49,1,"SmoothStep",3065,3},
{50,1,"Fma",3068,3},
{51,1,"Frexp",3071,2},
{52,1,"FrexpStruct",3073,1},
{53,1,"Ldexp",3074,2},
{54,1,"PackSnorm4x8",3076,1},
{55,1,"PackUnorm4x8",3077,1},
{56,1,"PackSnorm2x16",3078,1},
{57,1,"PackUnorm2x16",3079,1},
{58,1,"PackHalf2x16",3080,1},
{59,1,"PackDouble2x32",3081,1},
{60,1,"UnpackSnorm2x16",3082,1},
{61,1,"UnpackUnorm2x16",3083,1},
{62,1,"UnpackHalf2x16",3084,1},
{63,1,"UnpackSnorm4x8",3085,1},
{64,1,"UnpackUnorm4x8",3086,1},
{65,1,"UnpackDouble2x32",3087,1},
{66,1,"Length",3088,1},
{67,1,"Distance",3089,2},
{68,1,"Cross",3091,2},
{69,1,"Normalize",3093,1},
{70,1,"FaceForward",3094,3},
{71,1,"Reflect",3097,2},
{72,1,"Refract",3099,3},
{73,1,"FindILsb",3102,1},
{74,1,"FindSMsb",3103,1},
{75,1,"FindUMsb",3104,1},
{76,1,"InterpolateAtCentroid",3105,1},
{77,1,"InterpolateAtSample",3106,2},
{78,1,"InterpolateAtOffset",3108,2},
{79,1,"NMin",3110,2},
{80,1,"NMax",3112,2},
{81,1,"NClamp",3114,3},
{0,2,"acos",3117,1},
{1,2,"acosh",3118,1},
{2,2,"acospi",3119,1},
{3,2,"asin",3120,1},
{4,2,"asinh",3121,1},
{5,2,"asinpi",3122,1},
{6,2,"atan",3123,1},
{7,2,"atan2",3124,2},
{8,2,"atanh",3126,1},
{9,2,"atanpi",3127,1},
{10,2,"atan2pi",3128,2},
{11,2,"cbrt",3130,1},
{12,2,"ceil",3131,1},
{13,2,"copysign",3132,2},
{14,2,"cos",3134,1},
{15,2,"cosh",3135,1},
{16,2,"cospi",3136,1},
{17,2,"erfc",3137,1},
{18,2,"erf",3138,1},
{19,2,"exp",3139,1},
{20,2,"exp2",3140,1},
{21,2,"exp10",3141,1},
{22,2,"expm1",3142,1},
{23,2,"fabs",3143,1},
{24,2,"fdim",3144,2},
{25,2,"floor",3146,1},
{26,2,"fma",3147,3},
{27,2,"fmax",3150,2},
{28,2,"fmin",3152,2},
{29,2,"fmod",3154,2},
{30,2,"fract",3156,2},
{31,2,"frexp",3158,2},
{32,2,"hypot",3160,2},
{33,2,"ilogb",3162,1},
{34,2,"ldexp",3163,2},
{35,2,"lgamma",3165,1},
{36,2,"lgamma_r",3166,2},
{37,2,"log",3168,1},
{38,2,"log2",3169,1},
{39,2,"log10",3170,1},
{40,2,"log1p",3171,1},
{41,2,"logb",3172,1},
{42,2,"mad",3173,3},
{43,2,"maxmag",3176,2},
{44,2,"minmag",3178,2},
{45,2,"modf",3180,2},
{46,2,"nan",3182,1},
{47,2,"nextafter",3183,2},
{48,2,"pow",3185,2},
{49,2,"pown",3187,2},
{50,2,"powr",3189,2},
{51,2,"remainder",3191,2},
{52,2,"remquo",3193,3},
{53,2,"rint",3196,1},
{54,2,"rootn",3197,2},
{55,2,"round",3199,1},
{56,2,"rsqrt",3200,1},
{57,2,"sin",3201,1},
{58,2,"sincos",3202,2},
{59,2,"sinh",3204,1},
{60,2,"sinpi",3205,1},
{61,2,"sqrt",3206,1},
{62,2,"tan",3207,1},
{63,2,"tanh",3208,1},
{64,2,"tanpi",3209,1},
{65,2,"tgamma",3210,1},
{66,2,"trunc",3211,1},
{67,2,"half_cos",3212,1},
{68,2,"half_divide",3213,2},
{69,2,"half_exp",3215,1},
{70,2,"half_exp2",3216,1},
{71,2,"half_exp10",3217,1},
{72,2,"half_log",3218,1},
{73,2,"half_log2",3219,1},
{74,2,"half_log10",3220,1},
{75,2,"half_powr",3221,2},
{76,2,"half_recip",3223,1},
{77,2,"half_rsqrt",3224,1},
{78,2,"half_sin",3225,1},
{79,2,"half_sqrt",3226,1},
{80,2,"half_tan",3227,1},
{81,2,"native_cos",3228,1},
{82,2,"native_divide",3229,2},
{83,2,"native_exp",3231,1},
{84,2,"native_exp2",3232,1},
{85,2,"native_exp10",3233,1},
{86,2,"native_log",3234,1},
{87,2,"native_log2",3235,1},
{88,2,"native_log10",3236,1},
{89,2,"native_powr",3237,2},
{90,2,"native_recip",3239,1},
{91,2,"native_rsqrt",3240,1},
{92,2,"native_sin",3241,1},
{93,2,"native_sqrt",3242,1},
{94,2,"native_tan",3243,1},
{141,2,"s_abs",3244,1},
{142,2,"s_abs_diff",3245,2},
{143,2,"s_add_sat",3247,2},
{144,2,"u_add_sat",3249,2},
{145,2,"s_hadd",3251,2},
{146,2,"u_hadd",3253,2},
{147,2,"s_rhadd",3255,2},
{148,2,"u_rhadd",3257,2},
{149,2,"s_clamp",3259,3},
{150,2,"u_clamp",3262,3},
{151,2,"clz",3265,1},
{152,2,"ctz",3266,1},
{153,2,"s_mad_hi",3267,3},
{154,2,"u_mad_sat",3270,3},
{155,2,"s_mad_sat",3273,3},
{156,2,"s_max",3276,2},
{157,2,"u_max",3278,2},
{158,2,"s_min",3280,2},
{159,2,"u_min",3282,2},
{160,2,"s_mul_hi",3284,2},
{161,2,"rotate",3286,2},
{162,2,"s_sub_sat",3288,2},
{163,2,"u_sub_sat",3290,2},
{164,2,"u_upsample",3292,2},
{165,2,"s_upsample",3294,2},
{166,2,"popcount",3296,1},
{167,2,"s_mad24",3297,3},
{168,2,"u_mad24",3300,3},
{169,2,"s_mul24",3303,2},
{170,2,"u_mul24",3305,2},
{201,2,"u_abs",3307,1},
{202,2,"u_abs_diff",3308,2},
{203,2,"u_mul_hi",3310,2},
{204,2,"u_mad_hi",3312,3},
{95,2,"fclamp",3315,3},
{96,2,"degrees",3318,1},
{97,2,"fmax_common",3319,2},
{98,2,"fmin_common",3321,2},
{99,2,"mix",3323,3},
{100,2,"radians",3326,1},
{101,2,"step",3327,2},
{102,2,"smoothstep",3329,3},
{103,2,"sign",3332,1},
{104,2,"cross",3333,2},
{105,2,"distance",3335,2},
{106,2,"length",3337,1},
{107,2,"normalize",3338,1},
{108,2,"fast_distance",3339,2},
{109,2,"fast_length",3341,1},
{110,2,"fast_normalize",3342,1},
{186,2,"bitselect",3343,3},
{187,2,"select",3346,3},
{171,2,"vloadn",3349,3},
{172,2,"vstoren",3352,3},
{173,2,"vload_half",3355,2},
{174,2,"vload_halfn",3357,3},
{175,2,"vstore_half",3360,3},
{176,2,"vstore_half_r",3363,4},
{177,2,"vstore_halfn",3367,3},
{178,2,"vstore_halfn_r",3370,4},
{179,2,"vloada_halfn",3374,3},
{180,2,"vstorea_halfn",3377,3},
{181,2,"vstorea_halfn_r",3380,4},
{182,2,"shuffle",3384,2},
{183,2,"shuffle2",3386,3},
{184,2,"printf",3389,2},
{185,2,"prefetch",3391,2}};
static const RegEnum regEnums[] = {
{0,0u,"None"},
{0,1u,"Bias"},
{0,2u,"Lod"},
{0,4u,"Grad"},
{0,8u,"ConstOffset"},
{0,16u,"Offset"},
{0,32u,"ConstOffsets"},
{0,64u,"Sample"},
{0,128u,"MinLod"},
{0,256u,"MakeTexelAvailable"},
{0,256u,"MakeTexelAvailableKHR"},
{0,512u,"MakeTexelVisible"},
{0,512u,"MakeTexelVisibleKHR"},
{0,1024u,"NonPrivateTexel"},
{0,1024u,"NonPrivateTexelKHR"},
{0,2048u,"VolatileTexel"},
{0,2048u,"VolatileTexelKHR"},
{0,4096u,"SignExtend"},
{0,8192u,"ZeroExtend"},
{0,16384u,"Nontemporal"},
{0,65536u,"Offsets"},
{1,0u,"None"},
{1,1u,"NotNaN"},
{1,2u,"NotInf"},
{1,4u,"NSZ"},
{1,8u,"AllowRecip"},
{1,16u,"Fast"},
{1,65536u,"AllowContractFastINTEL"},
{1,131072u,"AllowReassocINTEL"},
{2,0u,"None"},
{2,1u,"Flatten"},
{2,2u,"DontFlatten"},
{3,0u,"None"},
{3,1u,"Unroll"},
{3,2u,"DontUnroll"},
{3,4u,"DependencyInfinite"},
{3,8u,"DependencyLength"},
{3,16u,"MinIterations"},
{3,32u,"MaxIterations"},
{3,64u,"IterationMultiple"},
{3,128u,"PeelCount"},
{3,256u,"PartialCount"},
{3,65536u,"InitiationIntervalINTEL"},
{3,131072u,"MaxConcurrencyINTEL"},
{3,262144u,"DependencyArrayINTEL"},
{3,524288u,"PipelineEnableINTEL"},
{3,1048576u,"LoopCoalesceINTEL"},
{3,2097152u,"MaxInterleavingINTEL"},
{3,4194304u,"SpeculatedIterationsINTEL"},
{3,8388608u,"NoFusionINTEL"},
{3,16777216u,"LoopCountINTEL"},
{3,33554432u,"MaxReinvocationDelayINTEL"},
{4,0u,"None"},
{4,1u,"Inline"},
{4,2u,"DontInline"},
{4,4u,"Pure"},
{4,8u,"Const"},
{4,65536u,"OptNoneINTEL"},
{5,0u,"Relaxed"},
{5,0u,"None"},
{5,2u,"Acquire"},
{5,4u,"Release"},
{5,8u,"AcquireRelease"},
{5,16u,"SequentiallyConsistent"},
{5,64u,"UniformMemory"},
{5,128u,"SubgroupMemory"},
{5,256u,"WorkgroupMemory"},
{5,512u,"CrossWorkgroupMemory"},
{5,1024u,"AtomicCounterMemory"},
{5,2048u,"ImageMemory"},
{5,4096u,"OutputMemory"},
{5,4096u,"OutputMemoryKHR"},
{5,8192u,"MakeAvailable"},
{5,8192u,"MakeAvailableKHR"},
{5,16384u,"MakeVisible"},
{5,16384u,"MakeVisibleKHR"},
{5,32768u,"Volatile"},
{6,0u,"None"},
{6,1u,"Volatile"},
{6,2u,"Aligned"},
{6,4u,"Nontemporal"},
{6,8u,"MakePointerAvailable"},
{6,8u,"MakePointerAvailableKHR"},
{6,16u,"MakePointerVisible"},
{6,16u,"MakePointerVisibleKHR"},
{6,32u,"NonPrivatePointer"},
{6,32u,"NonPrivatePointerKHR"},
{6,65536u,"AliasScopeINTELMask"},
{6,131072u,"NoAliasINTELMask"},
{7,0u,"None"},
{7,1u,"CmdExecTime"},
{8,0u,"NoneKHR"},
{8,1u,"OpaqueKHR"},
{8,2u,"NoOpaqueKHR"},
{8,4u,"TerminateOnFirstHitKHR"},
{8,8u,"SkipClosestHitShaderKHR"},
{8,16u,"CullBackFacingTrianglesKHR"},
{8,32u,"CullFrontFacingTrianglesKHR"},
{8,64u,"CullOpaqueKHR"},
{8,128u,"CullNoOpaqueKHR"},
{8,256u,"SkipTrianglesKHR"},
{8,512u,"SkipAABBsKHR"},
{8,1024u,"ForceOpacityMicromap2StateEXT"},
{9,1u,"Vertical2Pixels"},
{9,2u,"Vertical4Pixels"},
{9,4u,"Horizontal2Pixels"},
{9,8u,"Horizontal4Pixels"},
{10,0u,"Unknown"},
{10,1u,"ESSL"},
{10,2u,"GLSL"},
{10,3u,"OpenCL_C"},
{10,4u,"OpenCL_CPP"},
{10,5u,"HLSL"},
{10,6u,"CPP_for_OpenCL"},
{10,7u,"SYCL"},
{10,8u,"HERO_C"},
{10,9u,"NZSL"},
{10,10u,"WGSL"},
{11,0u,"Vertex"},
{11,1u,"TessellationControl"},
{11,2u,"TessellationEvaluation"},
{11,3u,"Geometry"},
{11,4u,"Fragment"},
{11,5u,"GLCompute"},
{11,6u,"Kernel"},
{11,5267u,"TaskNV"},
{11,5268u,"MeshNV"},
{11,5313u,"RayGenerationNV"},
{11,5313u,"RayGenerationKHR"},
{11,5314u,"IntersectionNV"},
{11,5314u,"IntersectionKHR"},
{11,5315u,"AnyHitNV"},
{11,5315u,"AnyHitKHR"},
{11,5316u,"ClosestHitNV"},
{11,5316u,"ClosestHitKHR"},
{11,5317u,"MissNV"},
{11,5317u,"MissKHR"},
{11,5318u,"CallableNV"},
{11,5318u,"CallableKHR"},
{11,5364u,"TaskEXT"},
{11,5365u,"MeshEXT"},
{12,0u,"Logical"},
{12,1u,"Physical32"},
{12,2u,"Physical64"},
{12,5348u,"PhysicalStorageBuffer64"},
{12,5348u,"PhysicalStorageBuffer64EXT"},
{13,0u,"Simple"},
{13,1u,"GLSL450"},
{13,2u,"OpenCL"},
{13,3u,"Vulkan"},
{13,3u,"VulkanKHR"},
{14,0u,"Invocations"},
{14,1u,"SpacingEqual"},
{14,2u,"SpacingFractionalEven"},
{14,3u,"SpacingFractionalOdd"},
{14,4u,"VertexOrderCw"},
{14,5u,"VertexOrderCcw"},
{14,6u,"PixelCenterInteger"},
{14,7u,"OriginUpperLeft"},
{14,8u,"OriginLowerLeft"},
{14,9u,"EarlyFragmentTests"},
{14,10u,"PointMode"},
{14,11u,"Xfb"},
{14,12u,"DepthReplacing"},
{14,14u,"DepthGreater"},
{14,15u,"DepthLess"},
{14,16u,"DepthUnchanged"},
{14,17u,"LocalSize"},
{14,18u,"LocalSizeHint"},
{14,19u,"InputPoints"},
{14,20u,"InputLines"},
{14,21u,"InputLinesAdjacency"},
{14,22u,"Triangles"},
{14,23u,"InputTrianglesAdjacency"},
{14,24u,"Quads"},
{14,25u,"Isolines"},
{14,26u,"OutputVertices"},
{14,27u,"OutputPoints"},
{14,28u,"OutputLineStrip"},
{14,29u,"OutputTriangleStrip"},
{14,30u,"VecTypeHint"},
{14,31u,"ContractionOff"},
{14,33u,"Initializer"},
{14,34u,"Finalizer"},
{14,35u,"SubgroupSize"},
{14,36u,"SubgroupsPerWorkgroup"},
{14,37u,"SubgroupsPerWorkgroupId"},
{14,38u,"LocalSizeId"},
{14,39u,"LocalSizeHintId"},
{14,4169u,"NonCoherentColorAttachmentReadEXT"},
{14,4170u,"NonCoherentDepthAttachmentReadEXT"},
{14,4171u,"NonCoherentStencilAttachmentReadEXT"},
{14,4421u,"SubgroupUniformControlFlowKHR"},
{14,4446u,"PostDepthCoverage"},
{14,4459u,"DenormPreserve"},
{14,4460u,"DenormFlushToZero"},
{14,4461u,"SignedZeroInfNanPreserve"},
{14,4462u,"RoundingModeRTE"},
{14,4463u,"RoundingModeRTZ"},
{14,5017u,"EarlyAndLateFragmentTestsAMD"},
{14,5027u,"StencilRefReplacingEXT"},
{14,5069u,"CoalescingAMDX"},
{14,5071u,"MaxNodeRecursionAMDX"},
{14,5072u,"StaticNumWorkgroupsAMDX"},
{14,5073u,"ShaderIndexAMDX"},
{14,5077u,"MaxNumWorkgroupsAMDX"},
{14,5079u,"StencilRefUnchangedFrontAMD"},
{14,5080u,"StencilRefGreaterFrontAMD"},
{14,5081u,"StencilRefLessFrontAMD"},
{14,5082u,"StencilRefUnchangedBackAMD"},
{14,5083u,"StencilRefGreaterBackAMD"},
{14,5084u,"StencilRefLessBackAMD"},
{14,5269u,"OutputLinesNV"},
{14,5269u,"OutputLinesEXT"},
{14,5270u,"OutputPrimitivesNV"},
{14,5270u,"OutputPrimitivesEXT"},
{14,5289u,"DerivativeGroupQuadsNV"},
{14,5290u,"DerivativeGroupLinearNV"},
{14,5298u,"OutputTrianglesNV"},
{14,5298u,"OutputTrianglesEXT"},
{14,5366u,"PixelInterlockOrderedEXT"},
{14,5367u,"PixelInterlockUnorderedEXT"},
{14,5368u,"SampleInterlockOrderedEXT"},
{14,5369u,"SampleInterlockUnorderedEXT"},
{14,5370u,"ShadingRateInterlockOrderedEXT"},
{14,5371u,"ShadingRateInterlockUnorderedEXT"},
{14,5618u,"SharedLocalMemorySizeINTEL"},
{14,5620u,"RoundingModeRTPINTEL"},
{14,5621u,"RoundingModeRTNINTEL"},
{14,5622u,"FloatingPointModeALTINTEL"},
{14,5623u,"FloatingPointModeIEEEINTEL"},
{14,5893u,"MaxWorkgroupSizeINTEL"},
{14,5894u,"MaxWorkDimINTEL"},
{14,5895u,"NoGlobalOffsetINTEL"},
{14,5896u,"NumSIMDWorkitemsINTEL"},
{14,5903u,"SchedulerTargetFmaxMhzINTEL"},
{14,6154u,"StreamingInterfaceINTEL"},
{14,6160u,"RegisterMapInterfaceINTEL"},
{14,6417u,"NamedBarrierCountINTEL"},
{15,0u,"UniformConstant"},
{15,1u,"Input"},
{15,2u,"Uniform"},
{15,3u,"Output"},
{15,4u,"Workgroup"},
{15,5u,"CrossWorkgroup"},
{15,6u,"Private"},
{15,7u,"Function"},
{15,8u,"Generic"},
{15,9u,"PushConstant"},
{15,10u,"AtomicCounter"},
{15,11u,"Image"},
{15,12u,"StorageBuffer"},
{15,4172u,"TileImageEXT"},
{15,5068u,"NodePayloadAMDX"},
{15,5076u,"NodeOutputPayloadAMDX"},
{15,5328u,"CallableDataNV"},
{15,5328u,"CallableDataKHR"},
{15,5329u,"IncomingCallableDataNV"},
{15,5329u,"IncomingCallableDataKHR"},
{15,5338u,"RayPayloadNV"},
{15,5338u,"RayPayloadKHR"},
{15,5339u,"HitAttributeNV"},
{15,5339u,"HitAttributeKHR"},
{15,5342u,"IncomingRayPayloadNV"},
{15,5342u,"IncomingRayPayloadKHR"},
{15,5343u,"ShaderRecordBufferNV"},
{15,5343u,"ShaderRecordBufferKHR"},
{15,5349u,"PhysicalStorageBuffer"},
{15,5349u,"PhysicalStorageBufferEXT"},
{15,5385u,"HitObjectAttributeNV"},
{15,5402u,"TaskPayloadWorkgroupEXT"},
{15,5605u,"CodeSectionINTEL"},
{15,5936u,"DeviceOnlyINTEL"},
{15,5937u,"HostOnlyINTEL"},
{16,0u,"Dim1D"},
{16,1u,"Dim2D"},
{16,2u,"Dim3D"},
{16,3u,"Cube"},
{16,4u,"Rect"},
{16,5u,"Buffer"},
{16,6u,"SubpassData"},
{16,4173u,"TileImageDataEXT"},
{17,0u,"None"},
{17,1u,"ClampToEdge"},
{17,2u,"Clamp"},
{17,3u,"Repeat"},
{17,4u,"RepeatMirrored"},
{18,0u,"Nearest"},
{18,1u,"Linear"},
{19,0u,"Unknown"},
{19,1u,"Rgba32f"},
{19,2u,"Rgba16f"},
{19,3u,"R32f"},
{19,4u,"Rgba8"},
{19,5u,"Rgba8Snorm"},
{19,6u,"Rg32f"},
{19,7u,"Rg16f"},
{19,8u,"R11fG11fB10f"},
{19,9u,"R16f"},
{19,10u,"Rgba16"},
{19,11u,"Rgb10A2"},
{19,12u,"Rg16"},
{19,13u,"Rg8"},
{19,14u,"R16"},
{19,15u,"R8"},
{19,16u,"Rgba16Snorm"},
{19,17u,"Rg16Snorm"},
{19,18u,"Rg8Snorm"},
{19,19u,"R16Snorm"},
{19,20u,"R8Snorm"},
{19,21u,"Rgba32i"},
{19,22u,"Rgba16i"},
{19,23u,"Rgba8i"},
{19,24u,"R32i"},
{19,25u,"Rg32i"},
{19,26u,"Rg16i"},
{19,27u,"Rg8i"},
{19,28u,"R16i"},
{19,29u,"R8i"},
{19,30u,"Rgba32ui"},
{19,31u,"Rgba16ui"},
{19,32u,"Rgba8ui"},
{19,33u,"R32ui"},
{19,34u,"Rgb10a2ui"},
{19,35u,"Rg32ui"},
{19,36u,"Rg16ui"},
{19,37u,"Rg8ui"},
{19,38u,"R16ui"},
{19,39u,"R8ui"},
{19,40u,"R64ui"},
{19,41u,"R64i"},
{20,0u,"R"},
{20,1u,"A"},
{20,2u,"RG"},
{20,3u,"RA"},
{20,4u,"RGB"},
{20,5u,"RGBA"},
{20,6u,"BGRA"},
{20,7u,"ARGB"},
{20,8u,"Intensity"},
{20,9u,"Luminance"},
{20,10u,"Rx"},
{20,11u,"RGx"},
{20,12u,"RGBx"},
{20,13u,"Depth"},
{20,14u,"DepthStencil"},
{20,15u,"sRGB"},
{20,16u,"sRGBx"},
{20,17u,"sRGBA"},
{20,18u,"sBGRA"},
{20,19u,"ABGR"},
{21,0u,"SnormInt8"},
{21,1u,"SnormInt16"},
{21,2u,"UnormInt8"},
{21,3u,"UnormInt16"},
{21,4u,"UnormShort565"},
{21,5u,"UnormShort555"},
{21,6u,"UnormInt101010"},
{21,7u,"SignedInt8"},
{21,8u,"SignedInt16"},
{21,9u,"SignedInt32"},
{21,10u,"UnsignedInt8"},
{21,11u,"UnsignedInt16"},
{21,12u,"UnsignedInt32"},
{21,13u,"HalfFloat"},
{21,14u,"Float"},
{21,15u,"UnormInt24"},
{21,16u,"UnormInt101010_2"},
{21,19u,"UnsignedIntRaw10EXT"},
{21,20u,"UnsignedIntRaw12EXT"},
{22,0u,"RTE"},
{22,1u,"RTZ"},
{22,2u,"RTP"},
{22,3u,"RTN"},
{23,0u,"Preserve"},
{23,1u,"FlushToZero"},
{24,0u,"TRN"},
{24,1u,"TRN_ZERO"},
{24,2u,"RND"},
{24,3u,"RND_ZERO"},
{24,4u,"RND_INF"},
{24,5u,"RND_MIN_INF"},
{24,6u,"RND_CONV"},
{24,7u,"RND_CONV_ODD"},
{25,0u,"IEEE"},
{25,1u,"ALT"},
{26,0u,"WRAP"},
{26,1u,"SAT"},
{26,2u,"SAT_ZERO"},
{26,3u,"SAT_SYM"},
{27,0u,"Export"},
{27,1u,"Import"},
{27,2u,"LinkOnceODR"},
{28,0u,"ReadOnly"},
{28,1u,"WriteOnly"},
{28,2u,"ReadWrite"},
{29,0u,"NoneINTEL"},
{29,1u,"ReadINTEL"},
{29,2u,"WriteINTEL"},
{29,3u,"ReadWriteINTEL"},
{30,0u,"Zext"},
{30,1u,"Sext"},
{30,2u,"ByVal"},
{30,3u,"Sret"},
{30,4u,"NoAlias"},
{30,5u,"NoCapture"},
{30,6u,"NoWrite"},
{30,7u,"NoReadWrite"},
{30,5940u,"RuntimeAlignedINTEL"},
{31,0u,"RelaxedPrecision"},
{31,1u,"SpecId"},
{31,2u,"Block"},
{31,3u,"BufferBlock"},
{31,4u,"RowMajor"},
{31,5u,"ColMajor"},
{31,6u,"ArrayStride"},
{31,7u,"MatrixStride"},
{31,8u,"GLSLShared"},
{31,9u,"GLSLPacked"},
{31,10u,"CPacked"},
{31,11u,"BuiltIn"},
{31,13u,"NoPerspective"},
{31,14u,"Flat"},
{31,15u,"Patch"},
{31,16u,"Centroid"},
{31,17u,"Sample"},
{31,18u,"Invariant"},
{31,19u,"Restrict"},
{31,20u,"Aliased"},
{31,21u,"Volatile"},
{31,22u,"Constant"},
{31,23u,"Coherent"},
{31,24u,"NonWritable"},
{31,25u,"NonReadable"},
{31,26u,"Uniform"},
{31,27u,"UniformId"},
{31,28u,"SaturatedConversion"},
{31,29u,"Stream"},
{31,30u,"Location"},
{31,31u,"Component"},
{31,32u,"Index"},
{31,33u,"Binding"},
{31,34u,"DescriptorSet"},
{31,35u,"Offset"},
{31,36u,"XfbBuffer"},
{31,37u,"XfbStride"},
{31,38u,"FuncParamAttr"},
{31,39u,"FPRoundingMode"},
{31,40u,"FPFastMathMode"},
{31,41u,"LinkageAttributes"},
{31,42u,"NoContraction"},
{31,43u,"InputAttachmentIndex"},
{31,44u,"Alignment"},
{31,45u,"MaxByteOffset"},
{31,46u,"AlignmentId"},
{31,47u,"MaxByteOffsetId"},
{31,4469u,"NoSignedWrap"},
{31,4470u,"NoUnsignedWrap"},
{31,4487u,"WeightTextureQCOM"},
{31,4488u,"BlockMatchTextureQCOM"},
{31,4999u,"ExplicitInterpAMD"},
{31,5019u,"NodeSharesPayloadLimitsWithAMDX"},
{31,5020u,"NodeMaxPayloadsAMDX"},
{31,5078u,"TrackFinishWritingAMDX"},
{31,5091u,"PayloadNodeNameAMDX"},
{31,5248u,"OverrideCoverageNV"},
{31,5250u,"PassthroughNV"},
{31,5252u,"ViewportRelativeNV"},
{31,5256u,"SecondaryViewportRelativeNV"},
{31,5271u,"PerPrimitiveNV"},
{31,5271u,"PerPrimitiveEXT"},
{31,5272u,"PerViewNV"},
{31,5273u,"PerTaskNV"},
{31,5285u,"PerVertexKHR"},
{31,5285u,"PerVertexNV"},
{31,5300u,"NonUniform"},
{31,5300u,"NonUniformEXT"},
{31,5355u,"RestrictPointer"},
{31,5355u,"RestrictPointerEXT"},
{31,5356u,"AliasedPointer"},
{31,5356u,"AliasedPointerEXT"},
{31,5386u,"HitObjectShaderRecordBufferNV"},
{31,5398u,"BindlessSamplerNV"},
{31,5399u,"BindlessImageNV"},
{31,5400u,"BoundSamplerNV"},
{31,5401u,"BoundImageNV"},
{31,5599u,"SIMTCallINTEL"},
{31,5602u,"ReferencedIndirectlyINTEL"},
{31,5607u,"ClobberINTEL"},
{31,5608u,"SideEffectsINTEL"},
{31,5624u,"VectorComputeVariableINTEL"},
{31,5625u,"FuncParamIOKindINTEL"},
{31,5626u,"VectorComputeFunctionINTEL"},
{31,5627u,"StackCallINTEL"},
{31,5628u,"GlobalVariableOffsetINTEL"},
{31,5634u,"CounterBuffer"},
{31,5634u,"HlslCounterBufferGOOGLE"},
{31,5635u,"UserSemantic"},
{31,5635u,"HlslSemanticGOOGLE"},
{31,5636u,"UserTypeGOOGLE"},
{31,5822u,"FunctionRoundingModeINTEL"},
{31,5823u,"FunctionDenormModeINTEL"},
{31,5825u,"RegisterINTEL"},
{31,5826u,"MemoryINTEL"},
{31,5827u,"NumbanksINTEL"},
{31,5828u,"BankwidthINTEL"},
{31,5829u,"MaxPrivateCopiesINTEL"},
{31,5830u,"SinglepumpINTEL"},
{31,5831u,"DoublepumpINTEL"},
{31,5832u,"MaxReplicatesINTEL"},
{31,5833u,"SimpleDualPortINTEL"},
{31,5834u,"MergeINTEL"},
{31,5835u,"BankBitsINTEL"},
{31,5836u,"ForcePow2DepthINTEL"},
{31,5899u,"BurstCoalesceINTEL"},
{31,5900u,"CacheSizeINTEL"},
{31,5901u,"DontStaticallyCoalesceINTEL"},
{31,5902u,"PrefetchINTEL"},
{31,5905u,"StallEnableINTEL"},
{31,5907u,"FuseLoopsInFunctionINTEL"},
{31,5909u,"MathOpDSPModeINTEL"},
{31,5914u,"AliasScopeINTEL"},
{31,5915u,"NoAliasINTEL"},
{31,5917u,"InitiationIntervalINTEL"},
{31,5918u,"MaxConcurrencyINTEL"},
{31,5919u,"PipelineEnableINTEL"},
{31,5921u,"BufferLocationINTEL"},
{31,5944u,"IOPipeStorageINTEL"},
{31,6080u,"FunctionFloatingPointModeINTEL"},
{31,6085u,"SingleElementVectorINTEL"},
{31,6087u,"VectorComputeCallableFunctionINTEL"},
{31,6140u,"MediaBlockIOINTEL"},
{31,6147u,"InitModeINTEL"},
{31,6148u,"ImplementInRegisterMapINTEL"},
{31,6168u,"HostAccessINTEL"},
{31,6170u,"FPMaxErrorDecorationINTEL"},
{31,6172u,"LatencyControlLabelINTEL"},
{31,6173u,"LatencyControlConstraintINTEL"},
{31,6175u,"ConduitKernelArgumentINTEL"},
{31,6176u,"RegisterMapKernelArgumentINTEL"},
{31,6177u,"MMHostInterfaceAddressWidthINTEL"},
{31,6178u,"MMHostInterfaceDataWidthINTEL"},
{31,6179u,"MMHostInterfaceLatencyINTEL"},
{31,6180u,"MMHostInterfaceReadWriteModeINTEL"},
{31,6181u,"MMHostInterfaceMaxBurstINTEL"},
{31,6182u,"MMHostInterfaceWaitRequestINTEL"},
{31,6183u,"StableKernelArgumentINTEL"},
{31,6442u,"CacheControlLoadINTEL"},
{31,6443u,"CacheControlStoreINTEL"},
{32,0u,"Position"},
{32,1u,"PointSize"},
{32,3u,"ClipDistance"},
{32,4u,"CullDistance"},
{32,5u,"VertexId"},
{32,6u,"InstanceId"},
{32,7u,"PrimitiveId"},
{32,8u,"InvocationId"},
{32,9u,"Layer"},
{32,10u,"ViewportIndex"},
{32,11u,"TessLevelOuter"},
{32,12u,"TessLevelInner"},
{32,13u,"TessCoord"},
{32,14u,"PatchVertices"},
{32,15u,"FragCoord"},
{32,16u,"PointCoord"},
{32,17u,"FrontFacing"},
{32,18u,"SampleId"},
{32,19u,"SamplePosition"},
{32,20u,"SampleMask"},
{32,22u,"FragDepth"},
{32,23u,"HelperInvocation"},
{32,24u,"NumWorkgroups"},
{32,25u,"WorkgroupSize"},
{32,26u,"WorkgroupId"},
{32,27u,"LocalInvocationId"},
{32,28u,"GlobalInvocationId"},
{32,29u,"LocalInvocationIndex"},
{32,30u,"WorkDim"},
{32,31u,"GlobalSize"},
{32,32u,"EnqueuedWorkgroupSize"},
{32,33u,"GlobalOffset"},
{32,34u,"GlobalLinearId"},
{32,36u,"SubgroupSize"},
{32,37u,"SubgroupMaxSize"},
{32,38u,"NumSubgroups"},
{32,39u,"NumEnqueuedSubgroups"},
{32,40u,"SubgroupId"},
{32,41u,"SubgroupLocalInvocationId"},
{32,42u,"VertexIndex"},
{32,43u,"InstanceIndex"},
{32,4160u,"CoreIDARM"},
{32,4161u,"CoreCountARM"},
{32,4162u,"CoreMaxIDARM"},
{32,4163u,"WarpIDARM"},
{32,4164u,"WarpMaxIDARM"},
{32,4416u,"SubgroupEqMask"},
{32,4416u,"SubgroupEqMaskKHR"},
{32,4417u,"SubgroupGeMask"},
{32,4417u,"SubgroupGeMaskKHR"},
{32,4418u,"SubgroupGtMask"},
{32,4418u,"SubgroupGtMaskKHR"},
{32,4419u,"SubgroupLeMask"},
{32,4419u,"SubgroupLeMaskKHR"},
{32,4420u,"SubgroupLtMask"},
{32,4420u,"SubgroupLtMaskKHR"},
{32,4424u,"BaseVertex"},
{32,4425u,"BaseInstance"},
{32,4426u,"DrawIndex"},
{32,4432u,"PrimitiveShadingRateKHR"},
{32,4438u,"DeviceIndex"},
{32,4440u,"ViewIndex"},
{32,4444u,"ShadingRateKHR"},
{32,4992u,"BaryCoordNoPerspAMD"},
{32,4993u,"BaryCoordNoPerspCentroidAMD"},
{32,4994u,"BaryCoordNoPerspSampleAMD"},
{32,4995u,"BaryCoordSmoothAMD"},
{32,4996u,"BaryCoordSmoothCentroidAMD"},
{32,4997u,"BaryCoordSmoothSampleAMD"},
{32,4998u,"BaryCoordPullModelAMD"},
{32,5014u,"FragStencilRefEXT"},
{32,5021u,"CoalescedInputCountAMDX"},
{32,5073u,"ShaderIndexAMDX"},
{32,5253u,"ViewportMaskNV"},
{32,5257u,"SecondaryPositionNV"},
{32,5258u,"SecondaryViewportMaskNV"},
{32,5261u,"PositionPerViewNV"},
{32,5262u,"ViewportMaskPerViewNV"},
{32,5264u,"FullyCoveredEXT"},
{32,5274u,"TaskCountNV"},
{32,5275u,"PrimitiveCountNV"},
{32,5276u,"PrimitiveIndicesNV"},
{32,5277u,"ClipDistancePerViewNV"},
{32,5278u,"CullDistancePerViewNV"},
{32,5279u,"LayerPerViewNV"},
{32,5280u,"MeshViewCountNV"},
{32,5281u,"MeshViewIndicesNV"},
{32,5286u,"BaryCoordKHR"},
{32,5286u,"BaryCoordNV"},
{32,5287u,"BaryCoordNoPerspKHR"},
{32,5287u,"BaryCoordNoPerspNV"},
{32,5292u,"FragSizeEXT"},
{32,5292u,"FragmentSizeNV"},
{32,5293u,"FragInvocationCountEXT"},
{32,5293u,"InvocationsPerPixelNV"},
{32,5294u,"PrimitivePointIndicesEXT"},
{32,5295u,"PrimitiveLineIndicesEXT"},
{32,5296u,"PrimitiveTriangleIndicesEXT"},
{32,5299u,"CullPrimitiveEXT"},
{32,5319u,"LaunchIdNV"},
{32,5319u,"LaunchIdKHR"},
{32,5320u,"LaunchSizeNV"},
{32,5320u,"LaunchSizeKHR"},
{32,5321u,"WorldRayOriginNV"},
{32,5321u,"WorldRayOriginKHR"},
{32,5322u,"WorldRayDirectionNV"},
{32,5322u,"WorldRayDirectionKHR"},
{32,5323u,"ObjectRayOriginNV"},
{32,5323u,"ObjectRayOriginKHR"},
{32,5324u,"ObjectRayDirectionNV"},
{32,5324u,"ObjectRayDirectionKHR"},
{32,5325u,"RayTminNV"},
{32,5325u,"RayTminKHR"},
{32,5326u,"RayTmaxNV"},
{32,5326u,"RayTmaxKHR"},
{32,5327u,"InstanceCustomIndexNV"},
{32,5327u,"InstanceCustomIndexKHR"},
{32,5330u,"ObjectToWorldNV"},
{32,5330u,"ObjectToWorldKHR"},
{32,5331u,"WorldToObjectNV"},
{32,5331u,"WorldToObjectKHR"},
{32,5332u,"HitTNV"},
{32,5333u,"HitKindNV"},
{32,5333u,"HitKindKHR"},
{32,5334u,"CurrentRayTimeNV"},
{32,5335u,"HitTriangleVertexPositionsKHR"},
{32,5351u,"IncomingRayFlagsNV"},
{32,5351u,"IncomingRayFlagsKHR"},
{32,5352u,"RayGeometryIndexKHR"},
{32,5374u,"WarpsPerSMNV"},
{32,5375u,"SMCountNV"},
{32,5376u,"WarpIDNV"},
{32,5377u,"SMIDNV"},
{32,6021u,"CullMaskKHR"},
{33,0u,"CrossDevice"},
{33,1u,"Device"},
{33,2u,"Workgroup"},
{33,3u,"Subgroup"},
{33,4u,"Invocation"},
{33,5u,"QueueFamily"},
{33,5u,"QueueFamilyKHR"},
{33,6u,"ShaderCallKHR"},
{34,0u,"Reduce"},
{34,1u,"InclusiveScan"},
{34,2u,"ExclusiveScan"},
{34,3u,"ClusteredReduce"},
{34,6u,"PartitionedReduceNV"},
{34,7u,"PartitionedInclusiveScanNV"},
{34,8u,"PartitionedExclusiveScanNV"},
{35,0u,"NoWait"},
{35,1u,"WaitKernel"},
{35,2u,"WaitWorkGroup"},
{36,0u,"Matrix"},
{36,1u,"Shader"},
{36,2u,"Geometry"},
{36,3u,"Tessellation"},
{36,4u,"Addresses"},
{36,5u,"Linkage"},
{36,6u,"Kernel"},
{36,7u,"Vector16"},
{36,8u,"Float16Buffer"},
{36,9u,"Float16"},
{36,10u,"Float64"},
{36,11u,"Int64"},
{36,12u,"Int64Atomics"},
{36,13u,"ImageBasic"},
{36,14u,"ImageReadWrite"},
{36,15u,"ImageMipmap"},
{36,17u,"Pipes"},
{36,18u,"Groups"},
{36,19u,"DeviceEnqueue"},
{36,20u,"LiteralSampler"},
{36,21u,"AtomicStorage"},
{36,22u,"Int16"},
{36,23u,"TessellationPointSize"},
{36,24u,"GeometryPointSize"},
{36,25u,"ImageGatherExtended"},
{36,27u,"StorageImageMultisample"},
{36,28u,"UniformBufferArrayDynamicIndexing"},
{36,29u,"SampledImageArrayDynamicIndexing"},
{36,30u,"StorageBufferArrayDynamicIndexing"},
{36,31u,"StorageImageArrayDynamicIndexing"},
{36,32u,"ClipDistance"},
{36,33u,"CullDistance"},
{36,34u,"ImageCubeArray"},
{36,35u,"SampleRateShading"},
{36,36u,"ImageRect"},
{36,37u,"SampledRect"},
{36,38u,"GenericPointer"},
{36,39u,"Int8"},
{36,40u,"InputAttachment"},
{36,41u,"SparseResidency"},
{36,42u,"MinLod"},
{36,43u,"Sampled1D"},
{36,44u,"Image1D"},
{36,45u,"SampledCubeArray"},
{36,46u,"SampledBuffer"},
{36,47u,"ImageBuffer"},
{36,48u,"ImageMSArray"},
{36,49u,"StorageImageExtendedFormats"},
{36,50u,"ImageQuery"},
{36,51u,"DerivativeControl"},
{36,52u,"InterpolationFunction"},
{36,53u,"TransformFeedback"},
{36,54u,"GeometryStreams"},
{36,55u,"StorageImageReadWithoutFormat"},
{36,56u,"StorageImageWriteWithoutFormat"},
{36,57u,"MultiViewport"},
{36,58u,"SubgroupDispatch"},
{36,59u,"NamedBarrier"},
{36,60u,"PipeStorage"},
{36,61u,"GroupNonUniform"},
{36,62u,"GroupNonUniformVote"},
{36,63u,"GroupNonUniformArithmetic"},
{36,64u,"GroupNonUniformBallot"},
{36,65u,"GroupNonUniformShuffle"},
{36,66u,"GroupNonUniformShuffleRelative"},
{36,67u,"GroupNonUniformClustered"},
{36,68u,"GroupNonUniformQuad"},
{36,69u,"ShaderLayer"},
{36,70u,"ShaderViewportIndex"},
{36,71u,"UniformDecoration"},
{36,4165u,"CoreBuiltinsARM"},
{36,4166u,"TileImageColorReadAccessEXT"},
{36,4167u,"TileImageDepthReadAccessEXT"},
{36,4168u,"TileImageStencilReadAccessEXT"},
{36,4422u,"FragmentShadingRateKHR"},
{36,4423u,"SubgroupBallotKHR"},
{36,4427u,"DrawParameters"},
{36,4428u,"WorkgroupMemoryExplicitLayoutKHR"},
{36,4429u,"WorkgroupMemoryExplicitLayout8BitAccessKHR"},
{36,4430u,"WorkgroupMemoryExplicitLayout16BitAccessKHR"},
{36,4431u,"SubgroupVoteKHR"},
{36,4433u,"StorageBuffer16BitAccess"},
{36,4433u,"StorageUniformBufferBlock16"},
{36,4434u,"UniformAndStorageBuffer16BitAccess"},
{36,4434u,"StorageUniform16"},
{36,4435u,"StoragePushConstant16"},
{36,4436u,"StorageInputOutput16"},
{36,4437u,"DeviceGroup"},
{36,4439u,"MultiView"},
{36,4441u,"VariablePointersStorageBuffer"},
{36,4442u,"VariablePointers"},
{36,4445u,"AtomicStorageOps"},
{36,4447u,"SampleMaskPostDepthCoverage"},
{36,4448u,"StorageBuffer8BitAccess"},
{36,4449u,"UniformAndStorageBuffer8BitAccess"},
{36,4450u,"StoragePushConstant8"},
{36,4464u,"DenormPreserve"},
{36,4465u,"DenormFlushToZero"},
{36,4466u,"SignedZeroInfNanPreserve"},
{36,4467u,"RoundingModeRTE"},
{36,4468u,"RoundingModeRTZ"},
{36,4471u,"RayQueryProvisionalKHR"},
{36,4472u,"RayQueryKHR"},
{36,4478u,"RayTraversalPrimitiveCullingKHR"},
{36,4479u,"RayTracingKHR"},
{36,4484u,"TextureSampleWeightedQCOM"},
{36,4485u,"TextureBoxFilterQCOM"},
{36,4486u,"TextureBlockMatchQCOM"},
{36,5008u,"Float16ImageAMD"},
{36,5009u,"ImageGatherBiasLodAMD"},
{36,5010u,"FragmentMaskAMD"},
{36,5013u,"StencilExportEXT"},
{36,5015u,"ImageReadWriteLodAMD"},
{36,5016u,"Int64ImageEXT"},
{36,5055u,"ShaderClockKHR"},
{36,5067u,"ShaderEnqueueAMDX"},
{36,5249u,"SampleMaskOverrideCoverageNV"},
{36,5251u,"GeometryShaderPassthroughNV"},
{36,5254u,"ShaderViewportIndexLayerEXT"},
{36,5254u,"ShaderViewportIndexLayerNV"},
{36,5255u,"ShaderViewportMaskNV"},
{36,5259u,"ShaderStereoViewNV"},
{36,5260u,"PerViewAttributesNV"},
{36,5265u,"FragmentFullyCoveredEXT"},
{36,5266u,"MeshShadingNV"},
{36,5282u,"ImageFootprintNV"},
{36,5283u,"MeshShadingEXT"},
{36,5284u,"FragmentBarycentricKHR"},
{36,5284u,"FragmentBarycentricNV"},
{36,5288u,"ComputeDerivativeGroupQuadsNV"},
{36,5291u,"FragmentDensityEXT"},
{36,5291u,"ShadingRateNV"},
{36,5297u,"GroupNonUniformPartitionedNV"},
{36,5301u,"ShaderNonUniform"},
{36,5301u,"ShaderNonUniformEXT"},
{36,5302u,"RuntimeDescriptorArray"},
{36,5302u,"RuntimeDescriptorArrayEXT"},
{36,5303u,"InputAttachmentArrayDynamicIndexing"},
{36,5303u,"InputAttachmentArrayDynamicIndexingEXT"},
{36,5304u,"UniformTexelBufferArrayDynamicIndexing"},
{36,5304u,"UniformTexelBufferArrayDynamicIndexingEXT"},
{36,5305u,"StorageTexelBufferArrayDynamicIndexing"},
{36,5305u,"StorageTexelBufferArrayDynamicIndexingEXT"},
{36,5306u,"UniformBufferArrayNonUniformIndexing"},
{36,5306u,"UniformBufferArrayNonUniformIndexingEXT"},
{36,5307u,"SampledImageArrayNonUniformIndexing"},
{36,5307u,"SampledImageArrayNonUniformIndexingEXT"},
{36,5308u,"StorageBufferArrayNonUniformIndexing"},
{36,5308u,"StorageBufferArrayNonUniformIndexingEXT"},
{36,5309u,"StorageImageArrayNonUniformIndexing"},
{36,5309u,"StorageImageArrayNonUniformIndexingEXT"},
{36,5310u,"InputAttachmentArrayNonUniformIndexing"},
{36,5310u,"InputAttachmentArrayNonUniformIndexingEXT"},
{36,5311u,"UniformTexelBufferArrayNonUniformIndexing"},
{36,5311u,"UniformTexelBufferArrayNonUniformIndexingEXT"},
{36,5312u,"StorageTexelBufferArrayNonUniformIndexing"},
{36,5312u,"StorageTexelBufferArrayNonUniformIndexingEXT"},
{36,5336u,"RayTracingPositionFetchKHR"},
{36,5340u,"RayTracingNV"},
{36,5341u,"RayTracingMotionBlurNV"},
{36,5345u,"VulkanMemoryModel"},
{36,5345u,"VulkanMemoryModelKHR"},
{36,5346u,"VulkanMemoryModelDeviceScope"},
{36,5346u,"VulkanMemoryModelDeviceScopeKHR"},
{36,5347u,"PhysicalStorageBufferAddresses"},
{36,5347u,"PhysicalStorageBufferAddressesEXT"},
{36,5350u,"ComputeDerivativeGroupLinearNV"},
{36,5353u,"RayTracingProvisionalKHR"},
{36,5357u,"CooperativeMatrixNV"},
{36,5363u,"FragmentShaderSampleInterlockEXT"},
{36,5372u,"FragmentShaderShadingRateInterlockEXT"},
{36,5373u,"ShaderSMBuiltinsNV"},
{36,5378u,"FragmentShaderPixelInterlockEXT"},
{36,5379u,"DemoteToHelperInvocation"},
{36,5379u,"DemoteToHelperInvocationEXT"},
{36,5381u,"RayTracingOpacityMicromapEXT"},
{36,5383u,"ShaderInvocationReorderNV"},
{36,5390u,"BindlessTextureNV"},
{36,5391u,"RayQueryPositionFetchKHR"},
{36,5568u,"SubgroupShuffleINTEL"},
{36,5569u,"SubgroupBufferBlockIOINTEL"},
{36,5570u,"SubgroupImageBlockIOINTEL"},
{36,5579u,"SubgroupImageMediaBlockIOINTEL"},
{36,5582u,"RoundToInfinityINTEL"},
{36,5583u,"FloatingPointModeINTEL"},
{36,5584u,"IntegerFunctions2INTEL"},
{36,5603u,"FunctionPointersINTEL"},
{36,5604u,"IndirectReferencesINTEL"},
{36,5606u,"AsmINTEL"},
{36,5612u,"AtomicFloat32MinMaxEXT"},
{36,5613u,"AtomicFloat64MinMaxEXT"},
{36,5616u,"AtomicFloat16MinMaxEXT"},
{36,5617u,"VectorComputeINTEL"},
{36,5619u,"VectorAnyINTEL"},
{36,5629u,"ExpectAssumeKHR"},
{36,5696u,"SubgroupAvcMotionEstimationINTEL"},
{36,5697u,"SubgroupAvcMotionEstimationIntraINTEL"},
{36,5698u,"SubgroupAvcMotionEstimationChromaINTEL"},
{36,5817u,"VariableLengthArrayINTEL"},
{36,5821u,"FunctionFloatControlINTEL"},
{36,5824u,"FPGAMemoryAttributesINTEL"},
{36,5837u,"FPFastMathModeINTEL"},
{36,5844u,"ArbitraryPrecisionIntegersINTEL"},
{36,5845u,"ArbitraryPrecisionFloatingPointINTEL"},
{36,5886u,"UnstructuredLoopControlsINTEL"},
{36,5888u,"FPGALoopControlsINTEL"},
{36,5892u,"KernelAttributesINTEL"},
{36,5897u,"FPGAKernelAttributesINTEL"},
{36,5898u,"FPGAMemoryAccessesINTEL"},
{36,5904u,"FPGAClusterAttributesINTEL"},
{36,5906u,"LoopFuseINTEL"},
{36,5908u,"FPGADSPControlINTEL"},
{36,5910u,"MemoryAccessAliasingINTEL"},
{36,5916u,"FPGAInvocationPipeliningAttributesINTEL"},
{36,5920u,"FPGABufferLocationINTEL"},
{36,5922u,"ArbitraryPrecisionFixedPointINTEL"},
{36,5935u,"USMStorageClassesINTEL"},
{36,5939u,"RuntimeAlignedAttributeINTEL"},
{36,5943u,"IOPipesINTEL"},
{36,5945u,"BlockingPipesINTEL"},
{36,5948u,"FPGARegINTEL"},
{36,6016u,"DotProductInputAll"},
{36,6016u,"DotProductInputAllKHR"},
{36,6017u,"DotProductInput4x8Bit"},
{36,6017u,"DotProductInput4x8BitKHR"},
{36,6018u,"DotProductInput4x8BitPacked"},
{36,6018u,"DotProductInput4x8BitPackedKHR"},
{36,6019u,"DotProduct"},
{36,6019u,"DotProductKHR"},
{36,6020u,"RayCullMaskKHR"},
{36,6022u,"CooperativeMatrixKHR"},
{36,6025u,"BitInstructions"},
{36,6026u,"GroupNonUniformRotateKHR"},
{36,6033u,"AtomicFloat32AddEXT"},
{36,6034u,"AtomicFloat64AddEXT"},
{36,6089u,"LongConstantCompositeINTEL"},
{36,6094u,"OptNoneINTEL"},
{36,6095u,"AtomicFloat16AddEXT"},
{36,6114u,"DebugInfoModuleINTEL"},
{36,6115u,"BFloat16ConversionINTEL"},
{36,6141u,"SplitBarrierINTEL"},
{36,6146u,"GlobalVariableFPGADecorationsINTEL"},
{36,6161u,"FPGAKernelAttributesv2INTEL"},
{36,6167u,"GlobalVariableHostAccessINTEL"},
{36,6169u,"FPMaxErrorINTEL"},
{36,6171u,"FPGALatencyControlINTEL"},
{36,6174u,"FPGAArgumentInterfacesINTEL"},
{36,6400u,"GroupUniformArithmeticKHR"},
{36,6441u,"CacheControlsINTEL"},
{37,0u,"RayQueryCandidateIntersectionKHR"},
{37,1u,"RayQueryCommittedIntersectionKHR"},
{38,0u,"RayQueryCommittedIntersectionNoneKHR"},
{38,1u,"RayQueryCommittedIntersectionTriangleKHR"},
{38,2u,"RayQueryCommittedIntersectionGeneratedKHR"},
{39,0u,"RayQueryCandidateIntersectionTriangleKHR"},
{39,1u,"RayQueryCandidateIntersectionAABBKHR"},
{40,0u,"PackedVectorFormat4x8Bit"},
{40,0u,"PackedVectorFormat4x8BitKHR"},
{41,0u,"NoneKHR"},
{41,1u,"MatrixASignedComponentsKHR"},
{41,2u,"MatrixBSignedComponentsKHR"},
{41,4u,"MatrixCSignedComponentsKHR"},
{41,8u,"MatrixResultSignedComponentsKHR"},
{41,16u,"SaturatingAccumulationKHR"},
{42,0u,"RowMajorKHR"},
{42,1u,"ColumnMajorKHR"},
{43,0u,"MatrixAKHR"},
{43,1u,"MatrixBKHR"},
{43,2u,"MatrixAccumulatorKHR"},
{44,0u,"InitOnDeviceReprogramINTEL"},
{44,1u,"InitOnDeviceResetINTEL"},
{45,0u,"UncachedINTEL"},
{45,1u,"CachedINTEL"},
{45,2u,"StreamingINTEL"},
{45,3u,"InvalidateAfterReadINTEL"},
{45,4u,"ConstCachedINTEL"},
{46,0u,"UncachedINTEL"},
{46,1u,"WriteThroughINTEL"},
{46,2u,"WriteBackINTEL"},
{46,3u,"StreamingINTEL"}};
static const RegParam regParams[] = {{0,1,3393,1}, {0,2,3394,1}, {0,4,3395,2}, {0,8,3397,1}, {0,16,3398,1}, {0,32,3399,1}, {0,64,3400,1}, {0,128,3401,1}, {0,256,3402,1}, {0,512,3403,1}, {0,65536,3404,1}, {3,8,3405,1}, {3,16,3406,1}, {3,32,3407,1}, {3,64,3408,1}, {3,128,3409,1}, {3,256,3410,1}, {3,65536,3411,1}, {3,131072,3412,1}, {3,262144,3413,1}, {3,524288,3414,1}, {3,1048576,3415,1}, {3,2097152,3416,1}, {3,4194304,3417,1}, {3,16777216,3418,1}, {3,33554432,3419,1}, {6,2,3420,1}, {6,8,3421,1}, {6,16,3422,1}, {6,65536,3423,1}, {6,131072,3424,1}, {14,0,3425,1}, {14,17,3426,3}, {14,18,3429,3}, {14,26,3432,1}, {14,30,3433,1}, {14,35,3434,1}, {14,36,3435,1}, {14,37,3436,1}, {14,38,3437,3}, {14,39,3440,3}, {14,4459,3443,1}, {14,4460,3444,1}, {14,4461,3445,1}, {14,4462,3446,1}, {14,4463,3447,1}, {14,5071,3448,1}, {14,5072,3449,3}, {14,5073,3452,1}, {14,5077,3453,3}, {14,5270,3456,1}, {14,5618,3457,1}, {14,5620,3458,1}, {14,5621,3459,1}, {14,5622,3460,1}, {14,5623,3461,1}, {14,5893,3462,3}, {14,5894,3465,1}, {14,5896,3466,1}, {14,5903,3467,1}, {14,6154,3468,1}, {14,6160,3469,1}, {14,6417,3470,1}, {31,1,3471,1}, {31,6,3472,1}, {31,7,3473,1}, {31,11,3474,1}, {31,27,3475,1}, {31,29,3476,1}, {31,30,3477,1}, {31,31,3478,1}, {31,32,3479,1}, {31,33,3480,1}, {31,34,3481,1}, {31,35,3482,1}, {31,36,3483,1}, {31,37,3484,1}, {31,38,3485,1}, {31,39,3486,1}, {31,40,3487,1}, {31,41,3488,2}, {31,43,3490,1}, {31,44,3491,1}, {31,45,3492,1}, {31,46,3493,1}, {31,47,3494,1}, {31,5019,3495,1}, {31,5020,3496,1}, {31,5091,3497,1}, {31,5256,3498,1}, {31,5599,3499,1}, {31,5607,3500,1}, {31,5625,3501,1}, {31,5628,3502,1}, {31,5634,3503,1}, {31,5635,3504,1}, {31,5636,3505,1}, {31,5822,3506,2}, {31,5823,3508,2}, {31,5826,3510,1}, {31,5827,3511,1}, {31,5828,3512,1}, {31,5829,3513,1}, {31,5832,3514,1}, {31,5834,3515,2}, {31,5835,3517,1}, {31,5836,3518,1}, {31,5900,3519,1}, {31,5902,3520,1}, {31,5909,3521,2}, {31,5914,3523,1}, {31,5915,3524,1}, {31,5917,3525,1}, {31,5918,3526,1}, {31,5919,3527,1}, {31,5921,3528,1}, {31,5944,3529,1}, {31,6080,3530,2}, {31,6147,3532,1}, {31,6148,3533,1}, {31,6168,3534,2}, {31,6170,3536,1}, {31,6172,3537,1}, {31,6173,3538,3}, {31,6177,3541,1}, {31,6178,3542,1}, {31,6179,3543,1}, {31,6180,3544,1}, {31,6181,3545,1}, {31,6182,3546,1}, {31,6442,3547,2}, {31,6443,3549,2}};
static const RegParam regBases[] = {{58,0,3551,2}, {59,0,3553,2}, {60,0,3555,2}};
