// Text utilities, with the templates instantiated that the readers use.
#include "named_type.h"
#include "string_operations.h"
template std::vector<double> util::StringOperations::StringVectorToNumberVector<double>(const std::vector<std::string> &);
template std::vector<int> util::StringOperations::StringVectorToNumberVector<int>(const std::vector<std::string> &);
