#set locgroup vx_loc::group_loc, vx_ax_len::group_len,
#set singular 0
#set filter filter.rs
#set iter 0
#crate locations jsonpath_rfc9535_locations/src
#include loc_body.vx
