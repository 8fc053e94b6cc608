#include <variant>
