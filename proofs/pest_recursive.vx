#set locgroup vx_none::ax_none,
#crate pest_recursive jsonpath_rfc9535_pest_recursive/src
#include pestlit.vx
