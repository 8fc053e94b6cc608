#include <utility>
