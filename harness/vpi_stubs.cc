#include <cstdlib>
#include "sv_vpi_user.h"
// global VPI entry points (the default provider refers to them; never reached with the stand-in)
extern "C" {
void vpi_get_value(vpiHandle, p_vpi_value) { abort(); }
PLI_INT32 vpi_get(PLI_INT32, vpiHandle) { abort(); }
vpiHandle vpi_iterate(PLI_INT32, vpiHandle) { abort(); }
vpiHandle vpi_scan(vpiHandle) { abort(); }
char *vpi_get_str(PLI_INT32, vpiHandle) { abort(); }
vpiHandle vpi_handle_by_name(PLI_BYTE8 *, vpiHandle) { abort(); }
vpiHandle vpi_handle_by_index(vpiHandle, PLI_INT32) { abort(); }
PLI_INT32 vpi_get_vlog_info(p_vpi_vlog_info) { abort(); }
void vpi_get_time(vpiHandle, p_vpi_time) { abort(); }
vpiHandle vpi_register_cb(p_cb_data) { abort(); }
PLI_INT32 vpi_remove_cb(vpiHandle) { abort(); }
PLI_INT32 vpi_release_handle(vpiHandle) { abort(); }
PLI_INT32 vpi_control(PLI_INT32, ...) { abort(); }
vpiHandle vpi_put_value(vpiHandle, p_vpi_value, p_vpi_time, PLI_INT32) { abort(); }
vpiHandle vpi_register_systf(p_vpi_systf_data) { abort(); }
vpiHandle vpi_handle(PLI_INT32, vpiHandle) { abort(); }
}
