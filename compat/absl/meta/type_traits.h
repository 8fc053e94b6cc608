#include <type_traits>
