#set locgroup vx_none::ax_none,
#crate conslist_locations jsonpath_rfc9535_locations/src
#include conslist.vx
