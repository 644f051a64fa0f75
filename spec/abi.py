"""Frozen kernel interfaces, from the system headers (64-bit, and 32-bit where the code supports it).

name: (offset, size, signed).  Entries starting with '_' have no counterpart in the kernel structure.
"""
SG_IO_HDR = {
    64: dict(size=88, fields=dict(
        interface_id=(0, 4, True), dxfer_direction=(4, 4, True), cmd_len=(8, 1, False), mx_sb_len=(9, 1, False),
        iovec_count=(10, 2, False), dxfer_len=(12, 4, False), dxferp=(16, 8, False), cmdp=(24, 8, False), sbp=(32, 8, False),
        timeout=(40, 4, False), flags=(44, 4, False), pack_id=(48, 4, True), usr_ptr=(56, 8, False), status=(64, 1, False),
        masked_status=(65, 1, False), msg_status=(66, 1, False), sb_len_wr=(67, 1, False), host_status=(68, 2, False),
        driver_status=(70, 2, False), resid=(72, 4, True), duration=(76, 4, False), info=(80, 4, False))),
    32: dict(size=64, fields=dict(
        interface_id=(0, 4, True), dxfer_direction=(4, 4, True), cmd_len=(8, 1, False), mx_sb_len=(9, 1, False),
        iovec_count=(10, 2, False), dxfer_len=(12, 4, False), dxferp=(16, 4, False), cmdp=(20, 4, False), sbp=(24, 4, False),
        timeout=(28, 4, False), flags=(32, 4, False), pack_id=(36, 4, True), usr_ptr=(40, 4, False), status=(44, 1, False),
        masked_status=(45, 1, False), msg_status=(46, 1, False), sb_len_wr=(47, 1, False), host_status=(48, 2, False),
        driver_status=(50, 2, False), resid=(52, 4, True), duration=(56, 4, False), info=(60, 4, False))),
}
USCSI_CMD = {
    64: dict(size=64, fields=dict(
        flags=(0, 4, True), status=(4, 1, False), reason=(5, 1, False), timeout=(6, 2, True), cdb=(8, 8, False),
        bufaddr=(16, 8, False), buflen=(24, 8, False), resid=(32, 8, False), cdblen=(40, 1, False), rqlen=(41, 1, False),
        rqstatus=(42, 1, False), rqresid=(43, 1, False), rqbuf=(48, 8, False), path_instance=(56, 8, False))),
}
SC_PASSTHRU = {
    64: dict(size=168, fields=dict(
        version=(0, 2, False), status_validity=(2, 1, False), scsi_bus_status=(3, 1, False), adap_status_type=(4, 1, False),
        adapter_status=(5, 1, False), adap_set_flags=(6, 1, False), add_device_status=(7, 1, False),
        adap_q_status=(8, 1, False), q_tag_msg=(9, 1, False), flags=(10, 1, False), devflags=(11, 1, False),
        q_flags=(12, 1, False), command_length=(14, 2, False), einval_arg=(16, 2, False), autosense_length=(18, 2, False),
        timeout_value=(20, 4, False), data_length=(24, 8, False), scsi_id=(32, 8, False), lun_id=(40, 8, False),
        buffer=(48, 8, False), autosense_buffer_ptr=(56, 8, False), scsi_cdb=(64, 64, False),
        world_wide_name=(128, 8, False), node_name=(136, 8, False), variable_cdb_length=(144, 4, False),
        variable_cdb_ptr=(152, 8, False), residual=(160, 8, False))),
}
SPTD = {
    64: dict(size=56, fields=dict(
        Length=(0, 2, False), ScsiStatus=(2, 1, False), PathId=(3, 1, False), TargetId=(4, 1, False), Lun=(5, 1, False),
        CdbLength=(6, 1, False), SenseInfoLength=(7, 1, False), DataIn=(8, 1, False), DataTransferLength=(12, 4, False),
        TimeOutValue=(16, 4, False), DataBuffer=(24, 8, False), SenseInfoOffset=(32, 4, False), Cdb=(36, 16, False))),
    32: dict(size=44, fields=dict(
        Length=(0, 2, False), ScsiStatus=(2, 1, False), PathId=(3, 1, False), TargetId=(4, 1, False), Lun=(5, 1, False),
        CdbLength=(6, 1, False), SenseInfoLength=(7, 1, False), DataIn=(8, 1, False), DataTransferLength=(12, 4, False),
        TimeOutValue=(16, 4, False), DataBuffer=(20, 4, False), SenseInfoOffset=(24, 4, False), Cdb=(28, 16, False))),
}

# uscsi_status and uscsi_reason change places with the byte order of the machine
USCSI_BIG_ENDIAN = {'status': (5, 1, False), 'reason': (4, 1, False)}

SG_IO = 0x2285
USCSICMD = 0x04C9
DK_PASSTHRU = 23
IOCTL_SCSI_PASS_THROUGH_DIRECT = 0x4D014
