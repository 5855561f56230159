#include <integratorxx/generators/impl/impl.hpp>
