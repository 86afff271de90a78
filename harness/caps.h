// capability -> capabilities it implicitly declares (SPIR-V specification, section 3.31), for the capabilities the library knows
static const int implied[][3] = {
  {1, 0, -1}, {2, 1, -1}, {3, 1, -1}, {7, 6, -1}, {8, 6, -1}, {12, 11, -1}, {13, 6, -1}, {14, 13, -1}, {15, 13, -1}, {17, 6, -1}, {19, 6, -1}, {20, 6, -1}, 
  {21, 1, -1}, {23, 3, -1}, {24, 2, -1}, {25, 1, -1}, {27, 1, -1}, {28, 1, -1}, {29, 1, -1}, {30, 1, -1}, {31, 1, -1}, {32, 1, -1}, {33, 1, -1}, {34, 45, -1}, 
  {35, 1, -1}, {36, 37, -1}, {37, 1, -1}, {38, 4, -1}, {40, 1, -1}, {41, 1, -1}, {42, 1, -1}, {44, 43, -1}, {45, 1, -1}, {47, 46, -1}, {48, 1, -1}, {49, 1, -1}, 
  {50, 1, -1}, {51, 1, -1}, {52, 1, -1}, {53, 1, -1}, {54, 2, -1}, {55, 1, -1}, {56, 1, -1}, {57, 2, -1}, {58, 19, -1}, {59, 6, -1}, {60, 17, -1}, {62, 61, -1}, 
  {63, 61, -1}, {64, 61, -1}, {65, 61, -1}, {66, 61, -1}, {67, 61, -1}, {68, 61, -1}, {4422, 1, -1}, {4427, 1, -1}, {4434, 4433, -1}, {4439, 1, -1}, {4441, 1, -1}, 
  {4442, 4441, -1}, {4449, 4448, -1}, {4471, 1, -1}, {4472, 1, -1}, {4478, 4472, 4479}, {4479, 1, -1}, {5008, 1, -1}, {5009, 1, -1}, {5010, 1, -1}, {5013, 1, -1}, 
  {5015, 1, -1}, {5016, 1, -1}, {5055, 1, -1}, {5249, 35, -1}, {5251, 2, -1}, {5254, 57, -1}, {5255, 5254, -1}, {5259, 5255, -1}, {5260, 4439, -1}, {5265, 1, -1}, 
  {5266, 1, -1}, {5291, 1, -1}, {5301, 1, -1}, {5302, 1, -1}, {5303, 40, -1}, {5304, 46, -1}, {5305, 47, -1}, {5306, 5301, -1}, {5307, 5301, -1}, {5308, 5301, -1}, 
  {5309, 5301, -1}, {5310, 40, 5301}, {5311, 46, 5301}, {5312, 47, 5301}, {5340, 1, -1}, {5347, 1, -1}, {5353, 1, -1}, {5357, 1, -1}, {5363, 1, -1}, {5372, 1, -1}, 
  {5373, 1, -1}, {5378, 1, -1}, {5379, 1, -1}, {5584, 1, -1}, {6033, 1, -1}, {6034, 1, -1}, 
};
static const unsigned allCapabilities[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 18, 19, 20, 21, 22, 23, 24, 25, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 4165, 4166, 4167, 4168, 4422, 4423, 4427, 4428, 4429, 4430, 4431, 4433, 4434, 4435, 4436, 4437, 4439, 4441, 4442, 4445, 4447, 4448, 4449, 4450, 4464, 4465, 4466, 4467, 4468, 4471, 4472, 4478, 4479, 4484, 4485, 4486, 5008, 5009, 5010, 5013, 5015, 5016, 5055, 5067, 5249, 5251, 5254, 5255, 5259, 5260, 5265, 5266, 5282, 5283, 5284, 5288, 5291, 5297, 5301, 5302, 5303, 5304, 5305, 5306, 5307, 5308, 5309, 5310, 5311, 5312, 5336, 5340, 5341, 5345, 5346, 5347, 5350, 5353, 5357, 5363, 5372, 5373, 5378, 5379, 5381, 5383, 5390, 5391, 5568, 5569, 5570, 5579, 5582, 5583, 5584, 5603, 5604, 5606, 5612, 5613, 5616, 5617, 5619, 5629, 5696, 5697, 5698, 5817, 5821, 5824, 5837, 5844, 5845, 5886, 5888, 5892, 5897, 5898, 5904, 5906, 5908, 5910, 5916, 5920, 5922, 5935, 5939, 5943, 5945, 5948, 6016, 6017, 6018, 6019, 6020, 6022, 6025, 6026, 6033, 6034, 6089, 6094, 6095, 6114, 6115, 6141, 6146, 6161, 6167, 6169, 6171, 6174, 6400, 6441, 2147483647};
