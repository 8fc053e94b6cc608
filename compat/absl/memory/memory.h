#include <memory>
