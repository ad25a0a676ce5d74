#set locgroup vx_none::ax_none,
#crate pest jsonpath_rfc9535_pest/src
#include pestlit.vx
