I4 = '    '
# ---------------------------------------------------------------- transfer commands
refactor('read6-helper', 'C01 C28', [('cdb/read.py', '''        read_length = self.block_size * self.transfer_length
        if read_length == 0: # This is only in READ 6
            read_length = 256 * self.block_size
        result_datagram = yield executer.call(SCSIReadCommand(datagram, read_length))
''', '''        result_datagram = yield executer.call(SCSIReadCommand(datagram, self._get_read_length()))
'''), ('cdb/read.py', '''class Read10Command(CDB):
''', '''class Read10Command(CDB):
    # 10 bytes
'''), ('cdb/read.py', '''        self.logical_block_address__lsb = self.logical_block_address & 0xffff
''', '''        self.logical_block_address__lsb = self.logical_block_address & 0xffff

    def _get_read_length(self):
        blocks = self.transfer_length or 256
        return blocks * self.block_size
''')])
refactor('read6-divmod', 'C01 C28', [('cdb/read.py', '''        self.logical_block_address__msb = self.logical_block_address >> 16
        self.logical_block_address__lsb = self.logical_block_address & 0xffff
''', '''        msb, lsb = divmod(self.logical_block_address, 0x10000)
        self.logical_block_address__msb, self.logical_block_address__lsb = msb, lsb
''')])
refactor('read-base-class', 'C01 C28', [('cdb/read.py', '''class Read10Command(CDB):
''', '''class _ReadCommand(CDB):
    _fields_ = []

    def _set_arguments(self, logical_block_address, transfer_length, block_size):
        self.logical_block_address = logical_block_address
        self.transfer_length = transfer_length
        self.block_size = block_size


class Read10Command(_ReadCommand):
'''), ('cdb/read.py', '''        super(Read10Command, self).__init__()
        self.logical_block_address = logical_block_address
        self.block_size = block_size
        self.transfer_length = transfer_length
''', '''        super(Read10Command, self).__init__()
        self._set_arguments(logical_block_address, transfer_length, block_size)
''')])
refactor('write6-conditional', 'C02 C28', [('cdb/write.py', '''        if num_blocks == 256:
            self.transfer_length = 0
        else:
            self.transfer_length = num_blocks
''', '''        # 256 blocks are written as 0
        self.transfer_length = num_blocks % 256
''')])
refactor('write-check-helper', 'C02 C28', [('cdb/write.py', '''        assert len(buffer) % block_size == 0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
''', '''        _assert_whole_blocks(buffer, block_size)
'''), ('cdb/write.py', '''class Write6Command(CDB):
''', '''def _assert_whole_blocks(buffer, block_size):
    number_of_blocks, remainder = divmod(len(buffer), block_size)
    assert not remainder, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
    return number_of_blocks


class Write6Command(CDB):
''')])
refactor('unmap-comprehension', 'C03 C28', [('cdb/unmap.py', '''        blocks=[]
        self.unmap_ubjects=[]
        for range in ranges_list:
            unmap_obj=UnmapParameterListBlock(range[0], range[1])
            self.unmap_ubjects.append(unmap_obj)
            blocks.append(unmap_obj.datagram)
        block_stream = b''.join(blocks)
''', '''        self.unmap_ubjects = [UnmapParameterListBlock(lba, count) for lba, count in ranges_list]
        block_stream = b''.join(unmap_object.datagram for unmap_object in self.unmap_ubjects)
''')])
refactor('unmap-sum', 'C03 C28', [('cdb/unmap.py', '''            blocks.append(unmap_obj.datagram)
        block_stream = b''.join(blocks)
''', '''            block_stream = block_stream + unmap_obj.datagram
'''), ('cdb/unmap.py', '''        blocks=[]
''', '''        block_stream = b''
''')])
refactor('unmap-enumerate', 'C03 C28', [('cdb/unmap.py', '''        for range in ranges_list:
            unmap_obj=UnmapParameterListBlock(range[0], range[1])
            self.unmap_ubjects.append(unmap_obj)
            blocks.append(unmap_obj.datagram)
''', '''        for lba, number_of_blocks in ranges_list:
            self.unmap_ubjects.append(UnmapParameterListBlock(lba, number_of_blocks))
            blocks.append(self.unmap_ubjects[-1].datagram)
''')])
refactor('unmap-loop-index', 'C03 C28', [('cdb/unmap.py', '''        for range in ranges_list:
            unmap_obj=UnmapParameterListBlock(range[0], range[1])
            self.unmap_ubjects.append(unmap_obj)
            blocks.append(unmap_obj.datagram)
''', '''        index = 0
        while index < len(ranges_list):
            lba, number_of_blocks = ranges_list[index]
            unmap_obj = UnmapParameterListBlock(lba, number_of_blocks)
            self.unmap_ubjects.append(unmap_obj)
            blocks.append(unmap_obj.datagram)
            index += 1
''')])
refactor('write-same-reorder', 'C03 C28', [('cdb/write_same.py', '''        assert (len(buffer) % block_size)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
        self.logical_block_address = logical_block_address
        self.buffer = buffer
        self.number_of_blocks = number_of_blocks
''', '''        self.number_of_blocks = number_of_blocks
        self.logical_block_address = logical_block_address
        self.buffer = buffer
        remainder = len(self.buffer) % block_size
        if remainder != 0:
            raise AssertionError("buffer length {0} is not a multiple of {1}".format(len(buffer), block_size))
''')])
refactor('execute-in-base', 'C03 C02 C01 C28', [('cdb/__init__.py', '''    def execute(self, executer):
        raise NotImplementedError()


class CDBBuffer''', '''    def execute(self, executer):
        raise NotImplementedError()

    def _call(self, executer, command):
        result_datagram = yield executer.call(command)
        yield result_datagram


class CDBBuffer'''), ('cdb/unmap.py', '''        datagram = self.create_datagram()
        result_datagram = yield executer.call(SCSIWriteCommand(datagram, self.buffer))
        yield result_datagram
''', '''        yield self._call(executer, SCSIWriteCommand(self.create_datagram(), self.buffer))
'''), ('cdb/write.py', '''        datagram = self.create_datagram()
        result_datagram = yield executer.call(SCSIWriteCommand(datagram, self.buffer))
        yield result_datagram
''', '''        command = SCSIWriteCommand(self.create_datagram(), self.buffer)
        yield self._call(executer, command)
''')])
# ---------------------------------------------------------------- report luns, target port groups
refactor('luns-single-loop', 'C09 C28', [('cdb/report_luns.py', '''        if not allow_unsupported_addressing_format:
            for item in self.lun_list:
                self._raise_if_unsupported_lun_addressing_format(item)
        self.lun_list = [item >> 48 for item in self.lun_list]
''', '''        normalized = []
        for item in self.lun_list:
            if not allow_unsupported_addressing_format:
                self._raise_if_unsupported_lun_addressing_format(item)
            normalized.append(item >> 48)
        self.lun_list = normalized
''')])
refactor('luns-constants', 'C09 C28', [('cdb/report_luns.py', '''        if item & 0xFFFFFFFFFFFF: # there is second/third/fourth level addressing
            raise UnsupportedLunAdressing(item)
        if item & 0xC000000000000000: # address method is not 00 (Simple logical unit addressing method)
            raise UnsupportedLogicalUnitAddressingMethod(item)
''', '''        first_level, other_levels = divmod(item, 1 << 48)
        if other_levels != 0:
            raise UnsupportedLunAdressing(item)
        if (first_level >> 14) != 0:
            raise UnsupportedLogicalUnitAddressingMethod(item)
'''), ('cdb/report_luns.py', '''            len_result_datagram = 0 if not result_datagram else len(result_datagram)
            assert len_result_datagram == self.allocation_length, "did not get the requested buffer"
''', '''            assert len(result_datagram or b'') == self.allocation_length, "did not get the requested buffer"
'''), ('cdb/report_luns.py', '''            result.hex_lun_list = [hex(lun) for lun in result.lun_list]
''', '''            result.hex_lun_list = list(map(hex, result.lun_list))
''')])
refactor('rtpg-class-choice', 'C13 C28', [('cdb/rtpg.py', 'TargetPortGroupLengthOnlyResponse', '_LengthOnly')])
# ---------------------------------------------------------------- executer
refactor('executer-renames', 'C17 C20 C28', [('__init__.py', 'my_cb', 'store_result'), ('__init__.py', '''        result = []
        def store''', '''        outcomes = []
        def store'''), ('__init__.py', '''            result.append((data, exception))''', '''            outcomes.append((data, exception))'''),
  ('__init__.py', '''        while len(result) == 0:''', '''        while not outcomes:'''), ('__init__.py', '''        data, exception = result[0]
        if exception is not None:
            raise exception

        yield data
''', '''        (data, exception), = outcomes
        if exception is None:
            yield data
        else:
            raise exception
''')])
refactor('executer-index-helper', 'C17', [('__init__.py', '''        result = self.packet_index
        while result in self.pending_packets:   # an older command may still be waiting for its response
            result = (result + 1) % self.max_queue_size
        self.packet_index = (result + 1) % self.max_queue_size
        return result
''', '''        index = self.packet_index
        while index in self.pending_packets:
            index = self._index_after(index)
        self.packet_index = self._index_after(index)
        return index

    def _index_after(self, index):
        return (index + 1) % self.max_queue_size
'''), ('__init__.py', '''        if len(self.pending_packets) >= self.max_queue_size:
            raise AsiRequestQueueFullError()
''', '''        if self.is_queue_full():
            raise AsiRequestQueueFullError()
''')])
refactor('executer-for-loop', 'C17', [('__init__.py', '''        result = self.packet_index
        while result in self.pending_packets:   # an older command may still be waiting for its response
            result = (result + 1) % self.max_queue_size
''', '''        for offset in range(self.max_queue_size):
            result = (self.packet_index + offset) % self.max_queue_size
            if result not in self.pending_packets:
                break
''')])
refactor('executer-send-pop', 'C17 C20 C21', [('__init__.py', '''        try:
            yield self._os_send(os_data)
        except:
            del self.pending_packets[packet_index]
            raise
''', '''        try:
            yield self._os_send(os_data)
        except BaseException:
            self.pending_packets.pop(packet_index)
            raise
''')])
refactor('executer-deliver-helper', 'C17 C20', [('__init__.py', '''        if callback is None:
            pass    # nobody asked for the outcome
        elif isinstance(result, Exception):
            callback(None, result)
        else:
            callback(result, None)

        yield True
''', '''        self._deliver(callback, result)
        yield True

    @staticmethod
    def _deliver(callback, result):
        if callback is None:
            return
        failed = isinstance(result, Exception)
        callback(None if failed else result, result if failed else None)
'''), ('__init__.py', '''        request, callback = self.pending_packets.pop(packet_id, (None, None))
        if request is None:
            raise AsiInternalError("SCSI response doesn't appear in the pending I/O list.")
''', '''        if packet_id not in self.pending_packets:
            raise AsiInternalError("SCSI response doesn't appear in the pending I/O list.")
        request, callback = self.pending_packets[packet_id]
        del self.pending_packets[packet_id]
''')])
refactor('platform-table', 'C26', [('__init__.py', '''    platform_name = get_platform_name()
    CommandExecuterForPlatform = None
    if platform_name == 'windows':
        from .win32 import Win32CommandExecuter as CommandExecuterForPlatform
    elif platform_name == 'linux':
        from .linux import LinuxCommandExecuter as CommandExecuterForPlatform
    elif platform_name == 'solaris':
        from .solaris import SolarisCommandExecuter as CommandExecuterForPlatform
    elif platform_name == 'aix':
        from .aix import AixCommandExecuter as CommandExecuterForPlatform
    else:
        raise AsiException("Platform %s is not yet supported." % platform_name)
    return CommandExecuterForPlatform(*args, **kwargs)
''', '''    from importlib import import_module
    platform_name = get_platform_name()
    executers = {'windows': ('win32', 'Win32CommandExecuter'), 'linux': ('linux', 'LinuxCommandExecuter'),
                 'solaris': ('solaris', 'SolarisCommandExecuter'), 'aix': ('aix', 'AixCommandExecuter')}
    if platform_name not in executers:
        raise AsiException("Platform {} is not yet supported.".format(platform_name))
    module_name, class_name = executers[platform_name]
    return getattr(import_module('infi.asi.' + module_name), class_name)(*args, **kwargs)
''')])
# ---------------------------------------------------------------- coroutines
refactor('coroutine-while', 'C18 C17', [('coroutines/sync_adapter.py', '''        while len(self.stack) > 0:
            if not self._next_step():
                return self.result
        self.done = True
        return self.result
''', '''        while self.stack:
            if not self._next_step():
                break
        else:
            self.done = True
        return self.result
''')])
refactor('coroutine-split', 'C18 C17', [('coroutines/sync_adapter.py', '''            if isinstance(self.args, BaseException):
                self.result = self.stack[-1].throw(self.args, None, self.tb)
            else:
                self.result = self.stack[-1].send(self.args)
            self.args = None
''', '''            self.result = self._resume(self.stack[-1])
            self.args = None
'''), ('coroutines/sync_adapter.py', '''    def _next_step(self):
''', '''    def _resume(self, generator):
        if isinstance(self.args, BaseException):
            return generator.throw(self.args, None, self.tb)
        return generator.send(self.args)

    def _next_step(self):
''')])
refactor('coroutine-rename', 'C18 C17', [('coroutines/sync_adapter.py', '_next_step', '_step'), ('coroutines/sync_adapter.py', 'self.stack', 'self._frames'), ('coroutines/sync_adapter.py', 'self.args', 'self._value')])
# ---------------------------------------------------------------- linux
refactor('sgio-helpers', 'C19 C20 C21', [('linux.py', '''        if isinstance(command, SCSIReadCommand):
            if command.max_response_length > 0:
                sgio.dxfer_direction = SG_DXFER_FROM_DEV
                sgio.set_data_buffer(create_string_buffer(command.max_response_length))
            else:
                sgio.dxfer_direction = SG_DXFER_NONE
                sgio.set_data_buffer(None)
        else:
            sgio.dxfer_direction = SG_DXFER_TO_DEV
            sgio.set_data_buffer(create_string_buffer(command.data, len(command.data)))

        sgio.flags = SG_FLAG_DIRECT_IO
        return sgio
''', '''        sgio.flags = SG_FLAG_DIRECT_IO
        sgio.init_transfer(command)
        return sgio

    def init_transfer(self, command):
        if not isinstance(command, SCSIReadCommand):
            direction, data = SG_DXFER_TO_DEV, create_string_buffer(command.data, len(command.data))
        elif command.max_response_length > 0:
            direction, data = SG_DXFER_FROM_DEV, create_string_buffer(command.max_response_length)
        else:
            direction, data = SG_DXFER_NONE, None
        self.dxfer_direction = direction
        self.set_data_buffer(data)
'''), ('linux.py', '''        memset(buf, 0, sizeof(SGIO))
''', '')])
refactor('linux-error-helper', 'C20 C21', [('linux.py', '''            error = AsiSCSIError(("SCSI host status is not zero: %s" +
                                  "(driver status: %s, host status: %s)") %
                                 (prettify_status(response_sgio.status, SCSI_STATUS_CODES),
                                  prettify_status(response_sgio.driver_status & 0x0f, DRIVER_STATUS_CODES),
                                  prettify_status(response_sgio.host_status, HOST_STATUS_CODES)))
            return (error, packet_id)
''', '''            return (self._scsi_error("SCSI host status is not zero", response_sgio), packet_id)
'''), ('linux.py', '''            error = AsiSCSIError(("SCSI response status is not zero: %s" +
                                  "(driver status: %s, host status: %s)") %
                                 (prettify_status(response_sgio.status, SCSI_STATUS_CODES),
                                  prettify_status(response_sgio.driver_status & 0x0f, DRIVER_STATUS_CODES),
                                  prettify_status(response_sgio.host_status, HOST_STATUS_CODES)))
            return (error, packet_id)
''', '''            return (self._scsi_error("SCSI response status is not zero", response_sgio), packet_id)
'''), ('linux.py', '''    def _handle_raw_response(self, raw):
''', '''    @staticmethod
    def _scsi_error(message, response):
        return AsiSCSIError("{}: {}(driver status: {}, host status: {})".format(
            message, prettify_status(response.status, SCSI_STATUS_CODES),
            prettify_status(response.driver_status & 0x0f, DRIVER_STATUS_CODES),
            prettify_status(response.host_status, HOST_STATUS_CODES)))

    def _handle_raw_response(self, raw):
''')])
refactor('linux-classify', 'C20 C21', [('linux.py', '''        response_sgio = SGIO.from_string(raw)

        packet_id = response_sgio.pack_id
        request_sgio = self._get_os_data(packet_id)
''', '''        response_sgio = SGIO.from_string(raw)
        packet_id = response_sgio.pack_id
        return (self._get_outcome(response_sgio, self._get_os_data(packet_id))[0], packet_id)

    def _get_outcome(self, response_sgio, request_sgio):
        packet_id = response_sgio.pack_id
''')])
refactor('prettify-loop', 'C20 C21 C22 C23', [('linux.py', '''    code_string = [key for key, value in status_dict.items() if value == code] or ['']
    return "%s 0x%02x" % (code_string[0], code)
''', '''    name = ''
    for key, value in status_dict.items():
        if value == code:
            name = key
            break
    return "%s 0x%02x" % (name, code)
''')])
# ---------------------------------------------------------------- device files
refactor('unix-read-deadline', 'C25', [('unix.py', '''        start_time = time.time()

        # A time-out value of zero specifies a poll and never blocks:
        while not select.select([self.fd], [], [], 0)[0]:
            time.sleep(0.01)
            if time.time() > start_time + self._read_timeout:
                raise IOError("Timeout while waiting for file descriptor to become readable")

        return os.read(self.fd, size)
''', '''        self._wait_until_readable()
        return os.read(self.fd, size)

    def _is_readable(self):
        readable, _, _ = select.select([self.fd], [], [], 0)
        return len(readable) > 0

    def _wait_until_readable(self):
        deadline = time.time() + self._read_timeout
        while not self._is_readable():
            time.sleep(0.01)
            if time.time() > deadline:
                raise IOError("Timeout while waiting for file descriptor to become readable")
''')])
refactor('contexts-helper', 'C25', [('executers.py', '''@contextmanager
def solaris(device):
    handle = create_os_file(device)
    try:
        yield create_platform_command_executer(handle)
    finally:
        handle.close()
''', '''@contextmanager
def _opened(device):
    handle = create_os_file(device)
    try:
        yield handle
    finally:
        handle.close()


@contextmanager
def solaris(device):
    with _opened(device) as handle:
        yield create_platform_command_executer(handle)
''')])
# ---------------------------------------------------------------- persistent reservations
refactor('prout-local-names', 'C05 C28', [('cdb/persist/output.py', '''        assert self.service_action in SERVICE_ACTION_TO_PARAMETER_LIST_CLASS, \\
            "No parameter list class defined for service action %r." % \\
            service_action
''', '''        if self.service_action not in SERVICE_ACTION_TO_PARAMETER_LIST_CLASS:
            raise AssertionError("No parameter list class defined for service action %r." % (service_action, ))
'''), ('cdb/persist/output.py', '''        parameter_list_buffer = parameter_list_buffer_class(
            reservation_key=reservation_key, service_action_reservation_key=service_action_reservation_key, **kwargs)
        self.parameter_list_datagram = parameter_list_buffer.create_datagram()
''', '''        kwargs.update(reservation_key=reservation_key, service_action_reservation_key=service_action_reservation_key)
        self.parameter_list_datagram = parameter_list_buffer_class(**kwargs).pack()
''')])
# ---------------------------------------------------------------- Solaris, AIX, Windows
refactor('solaris-data-helper', 'C22', [('solaris.py', '''        if isinstance(command, SCSIReadCommand):
            if command.max_response_length > 0:
                scsicmd.uscsi_flags = USCSI_READ | USCSI_DEFAULT_FLAGS
                scsicmd.set_data_buffer(create_string_buffer(command.max_response_length))
            else:
                scsicmd.uscsi_flags = USCSI_WRITE | USCSI_DEFAULT_FLAGS
                scsicmd.set_data_buffer(None)
        else:
            scsicmd.uscsi_flags = USCSI_WRITE | USCSI_DEFAULT_FLAGS
            scsicmd.set_data_buffer(create_string_buffer(command.data, len(command.data)))

        return scsicmd
''', '''        scsicmd._set_direction(command)
        return scsicmd

    def _set_direction(self, command):
        direction, data = USCSI_WRITE, None
        if isinstance(command, SCSIReadCommand):
            if command.max_response_length > 0:
                direction, data = USCSI_READ, create_string_buffer(command.max_response_length)
        else:
            data = create_string_buffer(command.data, len(command.data))
        self.uscsi_flags = direction | USCSI_DEFAULT_FLAGS
        self.set_data_buffer(data)
''')])
refactor('solaris-outcome-helper', 'C22', [('solaris.py', '''        response_cmd = SCSICMD.from_string(raw)

        request_cmd = self._get_os_data(packet_id)
''', '''        return self._outcome(SCSICMD.from_string(raw), self._get_os_data(packet_id)), packet_id

    def _outcome(self, response_cmd, request_cmd):
'''), ('solaris.py', '''            return (self._check_condition(string_at(response_cmd.uscsi_rqbuf, SENSE_SIZE)), packet_id)
''', '''            return self._check_condition(string_at(response_cmd.uscsi_rqbuf, SENSE_SIZE))
'''), ('solaris.py', '''            return (AsiSCSIError(("SCSI response status is not zero: 0x%02x " +
                                 "(SCSI reason: 0x%02x)") %
                                (response_status_code, response_reason_code)), packet_id)
''', '''            message = "SCSI response status is not zero: 0x{0:02x} (SCSI reason: 0x{1:02x})"
            return AsiSCSIError(message.format(response_status_code, response_reason_code))
'''), ('solaris.py', '''            return (AsiSCSIError("SCSI request commmand status is not zero: 0x%02x" %
                                (response_cmd.uscsi_rqstatus)), packet_id)
''', '''            return AsiSCSIError("SCSI request commmand status is not zero: 0x%02x" % response_cmd.uscsi_rqstatus)
'''), ('solaris.py', '''        data = None
        if request_cmd.uscsi_flags & USCSI_READ and request_cmd.uscsi_buflen != 0:
            data = request_cmd.data_buffer.raw

        return (data, packet_id)
''', '''        if not request_cmd.uscsi_flags & USCSI_READ:
            return None
        return request_cmd.data_buffer.raw if request_cmd.uscsi_buflen else None
''')])
refactor('solaris-send-local', 'C22', [('solaris.py', '''        buf = os_data.to_raw()
        # IMPORTANT''', '''        request = os_data.to_raw()
        # IMPORTANT'''), ('solaris.py', 'create_string_buffer(buf)', 'create_string_buffer(request)')])
refactor('aix-error-helper', 'C23', [('aix.py', '''        try:
            ioctl = gevent_friendly(get_ioctl_function())
            if ioctl(self.io.fd, DK_PASSTHRU, addressof(os_data)) == -1:
                raise IOError("ioctl failed")   # libc's ioctl, unlike fcntl's, does not raise
        except IOError:
            if os_data.einval_arg != 0:
                msg = "ioctl failed, invalid argument: {}"
                raise AsiOSError(msg.format(prettify_status(os_data.einval_arg, EINVAL_CODES)))
            elif os_data.status_validity == 0:
                # no valid status to parse in _handle_raw_response
                raise AsiOSError("ioctl failed, no valid status")
''', '''        ioctl = gevent_friendly(get_ioctl_function())
        try:
            failed = ioctl(self.io.fd, DK_PASSTHRU, addressof(os_data)) == -1
        except (OSError, IOError):
            failed = True
        if failed:
            self._raise_unless_status_is_valid(os_data)
'''), ('aix.py', '''    def _os_receive(self):
''', '''    def _raise_unless_status_is_valid(self, os_data):
        if os_data.einval_arg:
            raise AsiOSError("ioctl failed, invalid argument: %s" % prettify_status(os_data.einval_arg, EINVAL_CODES))
        if not os_data.status_validity:
            raise AsiOSError("ioctl failed, no valid status")

    def _os_receive(self):
''')])
refactor('aix-outcome-early-return', 'C23', [('aix.py', '''        if response_cmd.status_validity != 0:
            if response_cmd.status_validity == STATUS_VALIDITY_CODES['SC_SCSI_ERROR']:
                scsi_status = response_cmd.scsi_bus_status & SCSI_STATUS_MASK
                if (scsi_status & SCSI_STATUS_CODES['SCSI_STATUS_CHECK_CONDITION']) != 0:
                    return (self._check_condition(string_at(response_cmd.autosense_buffer_ptr, SENSE_SIZE)), packet_id)
                return (AixAsiSCSIError("SCSI bus response status is not zero", response_cmd), packet_id)
            elif response_cmd.status_validity == STATUS_VALIDITY_CODES['SC_ADAPTER_ERROR']:
                return (AixAsiSCSIError("SCSI adapter response status is not zero", response_cmd), packet_id)
            else:
                return (AixAsiSCSIError("SCSI response status validity unknown", response_cmd), packet_id)

        data = None
        if request_cmd.flags & B_READ and request_cmd.data_length != 0:
            data = request_cmd.data_buffer.raw

        return (data, packet_id)
''', '''        validity = response_cmd.status_validity
        if validity == 0:
            has_data = request_cmd.flags & B_READ and request_cmd.data_length > 0
            result = request_cmd.data_buffer.raw if has_data else None
        elif validity == STATUS_VALIDITY_CODES['SC_SCSI_ERROR']:
            if response_cmd.scsi_bus_status & SCSI_STATUS_MASK & SCSI_STATUS_CODES['SCSI_STATUS_CHECK_CONDITION']:
                result = self._check_condition(string_at(response_cmd.autosense_buffer_ptr, SENSE_SIZE))
            else:
                result = AixAsiSCSIError("SCSI bus response status is not zero", response_cmd)
        elif validity == STATUS_VALIDITY_CODES['SC_ADAPTER_ERROR']:
            result = AixAsiSCSIError("SCSI adapter response status is not zero", response_cmd)
        else:
            result = AixAsiSCSIError("SCSI response status validity unknown", response_cmd)
        return result, packet_id
''')])
refactor('aix-cdb-loop', 'C23', [('aix.py', '''        for i in range(SC_PASSTHRU_CDB_LEN):
            self.scsi_cdb[i] = 0
        for i in range(min(SC_PASSTHRU_CDB_LEN, len(command))):
            self.scsi_cdb[i] = six.indexbytes(command, i)  # ord(command[i])
''', '''        for i in range(SC_PASSTHRU_CDB_LEN):
            self.scsi_cdb[i] = six.indexbytes(command, i) if i < len(command) else 0
''')])
refactor('win-receive-single-yield', 'C24', [('win32.py', '''        spt = self.incoming_packets.pop()
        if spt.ScsiStatus != 0:
            if spt.ScsiStatus == SCSISTAT_CHECK_CONDITION:
                yield (self._check_condition(string_at(spt.sense_buffer, SENSE_SIZE)), spt.packet_id)
                return
            yield (AsiSCSIError("SCSI response status is not zero: %d" % (spt.ScsiStatus,)), spt.packet_id)
            return
        data = None
        if spt.DataIn == SCSI_IOCTL_DATA_IN and spt.DataTransferLength != 0:
            data = spt.data_buffer.raw[0:spt.DataTransferLength]

        yield (data, spt.packet_id)
''', '''        spt = self.incoming_packets.pop()
        yield self._outcome_of(spt), spt.packet_id

    def _outcome_of(self, spt):
        if spt.ScsiStatus == SCSISTAT_CHECK_CONDITION:
            return self._check_condition(string_at(spt.sense_buffer, SENSE_SIZE))
        if spt.ScsiStatus != 0:
            return AsiSCSIError("SCSI response status is not zero: {}".format(spt.ScsiStatus))
        if spt.DataIn != SCSI_IOCTL_DATA_IN or spt.DataTransferLength == 0:
            return None
        return spt.data_buffer.raw[:spt.DataTransferLength]
''')])
refactor('win-cdb-enumerate', 'C24', [('win32.py', '''        for i in range(len(command.command)):
            spt.Cdb[i] = six.indexbytes(command.command, i)  # ord(command.command[i])
''', '''        for i, byte in enumerate(bytearray(command.command)):
            spt.Cdb[i] = byte
''')])
refactor('win-wait-for-comprehension', 'C24', [('win32.py', '''        # sort results_dict in the same order as commands
        results = []
        for command in commands:
            results.append(results_dict[command])
        return results
''', '''        # in the same order as commands
        return [results_dict[command] for command in commands]
'''), ('win32.py', '''        events = {coroutine.get_result().event: (command, coroutine) for (command, coroutine) in coroutines.items()}
        returned_event_index = WaitForMultipleObjects(list(events.keys()))
        returned_event = list(events.keys())[returned_event_index]
        command, coroutine = events[returned_event]
''', '''        waiting = list(coroutines.items())
        index = WaitForMultipleObjects([coroutine.get_result().event for _, coroutine in waiting])
        command, coroutine = waiting[index]
''')])
refactor('win-raise-helper', 'C24', [('win32.py', '''        bytes_returned = c_ulong(0)
        if not DeviceIoControl(c_void_p(self.handle), control_code, input, input_size, output or None, output_size,
                               byref(bytes_returned), None):
            raise AsiWin32OSError(GetLastError(), "DeviceIoControl %d for path %s failed" % (control_code, self.path))
        return bytes_returned.value
''', '''        bytes_returned = c_ulong(0)
        succeeded = DeviceIoControl(c_void_p(self.handle), control_code, input, input_size, output or None, output_size,
                                    byref(bytes_returned), None)
        if not succeeded:
            error = GetLastError()
            raise AsiWin32OSError(error, "DeviceIoControl {} for path {} failed".format(control_code, self.path))
        return bytes_returned.value
''')])
# ---------------------------------------------------------------- decoders
refactor('sense-class-table', 'C15', [('sense/__init__.py', '''    # spc4r30 4.5:
    if response_code.code in (0x70, 0x71):
        sense = SCSISenseDataFixed.create_from_string(buf)
    elif response_code.code in (0x72, 0x73):
        sense = SCSISenseDataDescriptorBased.create_from_string(buf)
    else:
        return None
    return sense
''', '''    # spc4r30 4.5:
    formats = {0x70: SCSISenseDataFixed, 0x71: SCSISenseDataFixed,
               0x72: SCSISenseDataDescriptorBased, 0x73: SCSISenseDataDescriptorBased}
    sense_class = formats.get(response_code.code)
    return None if sense_class is None else sense_class.create_from_string(buf)
''')])
refactor('check-condition-else', 'C15 C20 C22', [('__init__.py', '''        try:
            sense = get_sense_object_from_buffer(buf)
        except Exception:
            sense = None    # malformed sense data: the caller still gets the raw bytes
        return AsiCheckConditionError(buf, sense)
''', '''        return AsiCheckConditionError(buf, self._decode_sense(buf))

    @staticmethod
    def _decode_sense(buf):
        try:
            return get_sense_object_from_buffer(buf)
        except Exception:
            return None     # malformed sense data: the caller still gets the raw bytes
''')])
refactor('designator-lookup', 'C12', [('cdb/inquiry/vpd_pages/designators.py', '''        if header.designator_type in SINGLE_TYPE_DESIGNATORS:
            return SINGLE_TYPE_DESIGNATORS[header.designator_type]
        if header.designator_type == 0x02:
            return _determine_eui_designator(header)
        if header.designator_type == 0x03:
            return _determine_naa_designator(buffer)
        if header.designator_type >= 0x09 and header.designator_type <= 0x0F:
            # Reserved designator, we ignore it.
            return Reserved_Designator
        raise InstructError("unknown designator type: %r" % header)
''', '''        kind = header.designator_type
        if kind == 0x02:
            return _determine_eui_designator(header)
        elif kind == 0x03:
            return _determine_naa_designator(buffer)
        elif 0x09 <= kind <= 0x0F:
            return Reserved_Designator
        return SINGLE_TYPE_DESIGNATORS[kind]
'''), ('cdb/inquiry/vpd_pages/designators.py', '''    key = header.designator_length
    if key in EUI64_BY_LENGTH:
        return EUI64_BY_LENGTH[key]
    raise InstructError("unknown reserved designator length: %r" % header)
''', '''    try:
        return EUI64_BY_LENGTH[header.designator_length]
    except KeyError:
        raise InstructError("unknown reserved designator length: %r" % header)
''')])
refactor('inquiry-unpack-helper', 'C10 C11 C12', [('cdb/inquiry/__init__.py', '''        result_datagram = yield executer.call(SCSIReadCommand(datagram, self.allocation_length))
        result = self.result_class()
        result.unpack(result_datagram)
        yield result
''', '''        response = yield executer.call(SCSIReadCommand(datagram, self.allocation_length))
        yield self._decode(response)

    def _decode(self, response):
        data = self.result_class()
        data.unpack(response)
        return data
''')])
refactor('inquiry-length-expression', 'C10 C27', [('cdb/inquiry/standard.py', '''        additional_length = 36 - 5  # SCSI's definition: additional length = n - 4
        if self.extended is not None:
            additional_length += len(self.extended.pack())
        return additional_length
''', '''        extended_length = len(self.extended.pack()) if self._has_extended_data() else 0
        return 31 + extended_length
''')])
refactor('vpd-dispatch-if', 'C16', [('cdb/inquiry/vpd_pages/__init__.py', '''    return SUPPORTED_VPD_PAGES_COMMANDS.get(page_code, UnknownVPDPageCommand(page_code))
''', '''    if page_code in SUPPORTED_VPD_PAGES_COMMANDS:
        return SUPPORTED_VPD_PAGES_COMMANDS[page_code]
    return UnknownVPDPageCommand(page_code)
''')])
refactor('ses-count-loop', 'C14', [('cdb/diagnostic/ses_pages/configuration.py', '''        return sum(desc.type_descriptor_headers_num for desc in self.enclosure_descriptor_list)
''', '''        total = 0
        for desc in self.enclosure_descriptor_list:
            total += desc.type_descriptor_headers_num
        return total
'''), ('cdb/diagnostic/ses_pages/configuration.py', '''        l = self.type_descriptor_header_list[index].type_descriptor_text_length
        return buffer[0:l].to_bytes(), l
''', '''        header = self.type_descriptor_header_list[index]
        text = buffer[:header.type_descriptor_text_length].to_bytes()
        return text, header.type_descriptor_text_length
''')])
refactor('ses-status-get', 'C14', [('cdb/diagnostic/ses_pages/enclosure_status.py', '''        elem_type = self.type_descriptor_header.element_type
        if elem_type in ELEMENT_TYPE_TO_ELEMENT_INFO:
            return ELEMENT_TYPE_TO_ELEMENT_INFO[elem_type]
        else:
            return GeneralStatusElement
''', '''        return ELEMENT_TYPE_TO_ELEMENT_INFO.get(self.type_descriptor_header.element_type, GeneralStatusElement)
'''), ('cdb/diagnostic/ses_pages/enclosure_status.py', '''        descriptor = StatusDescriptor()
        bytes = descriptor.unpack(buffer, self.conf_page.type_descriptor_header_list[index])
        return descriptor, bytes
''', '''        header = self.conf_page.type_descriptor_header_list[index]
        descriptor = StatusDescriptor()
        consumed = descriptor.unpack(buffer, header)
        return descriptor, consumed
''')])
refactor('pr-in-dict-get', 'C06 C28', [('cdb/persist/input.py', '''        assert self.service_action in SERVICE_ACTION_TO_RESPONSE_BUFFER_CLASS, \\
            "No unpacking class defined for service action %r." % \\
            self.service_action
        result_class = SERVICE_ACTION_TO_RESPONSE_BUFFER_CLASS[self.service_action]
        result = result_class()
        result_class.unpack(result, result_datagram)
        yield result
''', '''        result_class = SERVICE_ACTION_TO_RESPONSE_BUFFER_CLASS.get(self.service_action)
        assert result_class is not None, "No unpacking class defined for service action %r." % (self.service_action,)
        result = result_class()
        result.unpack(result_datagram)
        yield result
''')])
refactor('pr-out-parameter-helper', 'C05 C28', [('cdb/persist/output.py', '''        parameter_list_buffer_class = \\
            SERVICE_ACTION_TO_PARAMETER_LIST_CLASS[service_action]
        parameter_list_buffer = parameter_list_buffer_class(
            reservation_key=reservation_key, service_action_reservation_key=service_action_reservation_key, **kwargs)
        self.parameter_list_datagram = parameter_list_buffer.create_datagram()
        self.parameter_list_length = len(self.parameter_list_datagram)
''', '''        kwargs.update(reservation_key=reservation_key, service_action_reservation_key=service_action_reservation_key)
        self.parameter_list_datagram = self._create_parameter_list(kwargs)
        self.parameter_list_length = len(self.parameter_list_datagram)

    def _create_parameter_list(self, fields):
        return SERVICE_ACTION_TO_PARAMETER_LIST_CLASS[self.service_action](**fields).create_datagram()
''')])
refactor('reserve-nested-ifs', 'C04 C28', [('cdb/reserve.py', '''        if third_party_device_id > 0:
            self.third_party = 1
            if third_party_device_id < 255:
                self.third_party_device_id = third_party_device_id
                self.long_id = 0
                self.parameter_list_length = 0
            else:
                parameter_list_buffer = Reserve10ParameterList(third_party_device_id=third_party_device_id)
                self.parameter_list_datagram = parameter_list_buffer.create_datagram()
                self.parameter_list_length = 8
                self.long_id = 1
''', '''        if third_party_device_id >= 255:
            self.third_party = self.long_id = 1
            self.parameter_list_datagram = Reserve10ParameterList(third_party_device_id=third_party_device_id).create_datagram()
            self.parameter_list_length = len(self.parameter_list_datagram)
        elif third_party_device_id > 0:
            self.third_party = 1
            self.third_party_device_id = third_party_device_id
''')])
refactor('log-sense-kwargs', 'C07 C28', [('cdb/log_sense.py', '''        super(LogSenseCommand, self).__init__()
        assert page_code >= 0, "page_code should be in range [0, 64)"
        self.sp = 0
        self.pc = 0
        self.parameter_pointer = 0
        self.page_code = page_code
        self.subpage_code = subpage_code
        self.allocation_length = allocation_length
''', '''        assert page_code >= 0, "page_code should be in range [0, 64)"
        super(LogSenseCommand, self).__init__(sp=0, pc=0, parameter_pointer=0, page_code=page_code,
                                              subpage_code=subpage_code, allocation_length=allocation_length)
''')])
refactor('rtpg-field-order', 'C13 C27', [('cdb/rtpg.py', '''    target_port_group = be_uint_field(where=bytes_ref[2:4])
    status_code = be_uint_field(where=bytes_ref[5])
''', '''    status_code = be_uint_field(where=bytes_ref[5])
    target_port_group = be_uint_field(where=bytes_ref[2:4])
''')])
refactor('file-for-flags', 'C25 C26', [('__init__.py', '''    elif platform_name in ['linux', 'aix']:
        from .unix import UnixFile
        return UnixFile(os.open(path, os.O_RDWR))
    elif platform_name == 'solaris':
        from .unix import UnixFile
        return UnixFile(os.open(path, os.O_RDWR|os.O_NONBLOCK))
''', '''    elif platform_name in ('linux', 'aix', 'solaris'):
        from .unix import UnixFile
        flags = os.O_RDWR
        if platform_name == 'solaris':
            flags |= os.O_NONBLOCK
        return UnixFile(os.open(path, flags))
''')])

refactor('write6-divmod', 'C02 C28', [('cdb/write.py', '''        assert len(buffer) % block_size == 0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)

        num_blocks = len(buffer) // block_size
        assert 0 < num_blocks <= 256''', '''        num_blocks, rest = divmod(len(buffer), block_size)
        assert rest == 0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
        assert 0 < num_blocks <= 256''')])
refactor('write6-multiply', 'C02 C28', [('cdb/write.py', '''        assert len(buffer) % block_size == 0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)

        num_blocks = len(buffer) // block_size
        assert 0 < num_blocks <= 256''', '''        num_blocks = len(buffer) // block_size
        assert num_blocks * block_size == len(buffer), "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
        assert 0 < num_blocks <= 256''')])
refactor('compare-and-write-multiply', 'C03 C28', [('cdb/compare_and_write.py', '''        assert len(buffer) % block_size == 0''', '''        assert self.transfer_length * block_size == len(buffer)''')])
# ---------------------------------------------------------------- other shapes: library helpers, comprehensions, generators
refactor('sgio-zeroed-by-ctypes', 'C19 C20 C21', [('linux.py', '''        buf = create_string_buffer(sizeof(SGIO))
        memset(buf, 0, sizeof(SGIO))
''', '''        buf = create_string_buffer(cls.sizeof())
''')])
refactor('sgio-direction-table', 'C19 C20 C21', [('linux.py', '''        if isinstance(command, SCSIReadCommand):
            if command.max_response_length > 0:
                sgio.dxfer_direction = SG_DXFER_FROM_DEV
                sgio.set_data_buffer(create_string_buffer(command.max_response_length))
            else:
                sgio.dxfer_direction = SG_DXFER_NONE
                sgio.set_data_buffer(None)
        else:
            sgio.dxfer_direction = SG_DXFER_TO_DEV
            sgio.set_data_buffer(create_string_buffer(command.data, len(command.data)))
''', '''        direction, data_buffer = cls._describe_transfer(command)
        sgio.dxfer_direction = direction
        sgio.set_data_buffer(data_buffer)
'''), ('linux.py', '''    @classmethod
    def from_string(cls, string):
''', '''    @staticmethod
    def _describe_transfer(command):
        if not isinstance(command, SCSIReadCommand):
            return SG_DXFER_TO_DEV, create_string_buffer(command.data, len(command.data))
        if command.max_response_length <= 0:
            return SG_DXFER_NONE, None
        return SG_DXFER_FROM_DEV, create_string_buffer(command.max_response_length)

    @classmethod
    def from_string(cls, string):
''')])
refactor('sgio-from-buffer-copy', 'C20 C21', [('linux.py', '''        buf = create_string_buffer(string, len(string))
        sgio = SGIO.from_buffer(buf)
        sgio.source_buffer = buf
        return sgio

    @classmethod
    def sizeof''', '''        source_buffer = create_string_buffer(string, len(string))
        result = cls.from_buffer(source_buffer)
        result.source_buffer = source_buffer
        return result

    @classmethod
    def sizeof''')])
refactor('linux-outcome-function', 'C20 C21', [('linux.py', '''        if response_sgio.status != 0:
            if response_sgio.host_status == 0x07:
                return (AsiRequestQueueFullError(), packet_id)
            if response_sgio.status == SCSI_STATUS_CODES['SCSI_STATUS_RESERVATION_CONFLICT']:
                return (AsiReservationConflictError(), packet_id)
''', '''        if response_sgio.status != 0:
            known = None
            if response_sgio.host_status == HOST_STATUS_CODES['SG_ERR_DID_ERROR']:
                known = AsiRequestQueueFullError
            elif response_sgio.status == SCSI_STATUS_CODES['SCSI_STATUS_RESERVATION_CONFLICT']:
                known = AsiReservationConflictError
            if known is not None:
                return (known(), packet_id)
''')])
refactor('ioctl-deque', 'C21 C25', [('linux.py', '''        self.buffers = []   # of the commands that were sent, oldest first
''', '''        self.buffers = collections.deque()   # of the commands that were sent, oldest first
'''), ('linux.py', 'self.buffers.pop(0)', 'self.buffers.popleft()'), ('linux.py', 'from ctypes import *\n', 'from ctypes import *\nimport collections\n')])
refactor('executer-namedtuple', 'C17 C20 C21', [('__init__.py', '''class CommandExecuterBase(CommandExecuter):
''', '''PendingPacket = collections.namedtuple("PendingPacket", "os_data callback")


class CommandExecuterBase(CommandExecuter):
'''), ('__init__.py', 'self.pending_packets[packet_index] = (os_data, callback)', 'self.pending_packets[packet_index] = PendingPacket(os_data, callback)'),
 ('__init__.py', '(packet_index, (None, None))[0]', '(packet_index, PendingPacket(None, None)).os_data'), ('__init__.py', 'import os\n', 'import collections\nimport os\n')])
refactor('executer-next-generator', 'C17 C20', [('__init__.py', '''        result = self.packet_index
        while result in self.pending_packets:   # an older command may still be waiting for its response
            result = (result + 1) % self.max_queue_size
''', '''        candidates = ((self.packet_index + i) % self.max_queue_size for i in range(self.max_queue_size))
        result = next(index for index in candidates if index not in self.pending_packets)
''')])
refactor('executer-holder', 'C17 C20 C21 C28', [('__init__.py', '''        result = []
        def my_cb(data, exception):
            result.append((data, exception))

        yield self.send(command, callback=my_cb)

        while len(result) == 0:
            yield self._process_pending_response()

        data, exception = result[0]
''', '''        outcome = None
        def store(data, exception):
            nonlocal outcome
            outcome = data, exception

        yield self.send(command, callback=store)

        while outcome is None:
            yield self._process_pending_response()

        data, exception = outcome
''')])
refactor('executer-pop-try', 'C17 C20', [('__init__.py', '''        request, callback = self.pending_packets.pop(packet_id, (None, None))
        if request is None:
            raise AsiInternalError("SCSI response doesn't appear in the pending I/O list.")
''', '''        try:
            request, callback = self.pending_packets.pop(packet_id)
        except KeyError:
            raise AsiInternalError("SCSI response doesn't appear in the pending I/O list.")
''')])
refactor('luns-shift-map', 'C09', [('cdb/report_luns.py', '''        self.lun_list = [item >> 48 for item in self.lun_list]
''', '''        self.lun_list = list(map(lambda item: item // 2 ** 48, self.lun_list))
''')])
refactor('luns-hex-format', 'C09', [('cdb/report_luns.py', '[hex(lun) for lun in result.lun_list]', '["0x{:x}".format(lun) for lun in result.lun_list]')])
refactor('luns-any', 'C09', [('cdb/report_luns.py', '''            for item in self.lun_list:
                self._raise_if_unsupported_lun_addressing_format(item)
''', '''            lun_iterator = iter(self.lun_list)
            while True:
                try:
                    item = next(lun_iterator)
                except StopIteration:
                    break
                self._raise_if_unsupported_lun_addressing_format(item)
''')])
refactor('luns-normalize-one-pass', 'C09', [('cdb/report_luns.py', '''        if not allow_unsupported_addressing_format:
            for item in self.lun_list:
                self._raise_if_unsupported_lun_addressing_format(item)
        self.lun_list = [item >> 48 for item in self.lun_list]
''', '''        normalized = []
        for item in self.lun_list:
            if not allow_unsupported_addressing_format:
                self._raise_if_unsupported_lun_addressing_format(item)
            normalized.append(item >> 48)
        self.lun_list = normalized
''')])
refactor('ses-sum-generator', 'C14', [('cdb/diagnostic/ses_pages/configuration.py', 'sum(desc.type_descriptor_headers_num for desc in self.enclosure_descriptor_list)', 'sum([desc.type_descriptor_headers_num for desc in self.enclosure_descriptor_list], 0)'),
 ('cdb/diagnostic/ses_pages/configuration.py', '''        l = self.type_descriptor_header_list[index].type_descriptor_text_length
        return buffer[0:l].to_bytes(), l
''', '''        header = self.type_descriptor_header_list[index]
        length = header.type_descriptor_text_length
        text = buffer[0:length].to_bytes()
        return text, length
''')])
refactor('unmap-struct-pack', 'C03 C28', [('cdb/unmap.py', '''        blocks=[]
        self.unmap_ubjects=[]
        for range in ranges_list:
            unmap_obj=UnmapParameterListBlock(range[0], range[1])
            self.unmap_ubjects.append(unmap_obj)
            blocks.append(unmap_obj.datagram)
        block_stream = b''.join(blocks)
''', '''        self.unmap_ubjects = [UnmapParameterListBlock(r[0], r[1]) for r in ranges_list]
        block_stream = b''.join(unmap_obj.datagram for unmap_obj in self.unmap_ubjects)
''')])
refactor('designator-dispatch-dict', 'C12 C11', [('cdb/inquiry/vpd_pages/designators.py', '''        if header.designator_type >= 0x09 and header.designator_type <= 0x0F:
''', '''        if header.designator_type in range(0x09, 0x10):
'''), ('cdb/inquiry/vpd_pages/designators.py', '''    key = header.designator_length
    if key in EUI64_BY_LENGTH:
        return EUI64_BY_LENGTH[key]
    raise InstructError("unknown reserved designator length: %r" % header)
''', '''    result = EUI64_BY_LENGTH.get(header.designator_length)
    if result is None:
        raise InstructError("unknown reserved designator length: %r" % header)
    return result
''')])
refactor('rtpg-response-attribute', 'C13 C28', [('cdb/rtpg.py', '''        if self.parameter_data_format == 0:
            response = TargetPortGroupLengthOnlyResponse()
            response.unpack(result_datagram)
        elif self.parameter_data_format == 1:
            response=TargetPortGroupExtendedResponse()
            response.unpack(result_datagram)

        yield response
''', '''        yield self._decode(result_datagram)
'''), ('cdb/rtpg.py', '''    def __init__(self, parameter_data_format=0, alloc''', '''    def _decode(self, result_datagram):
        response_classes = {0: TargetPortGroupLengthOnlyResponse, 1: TargetPortGroupExtendedResponse}
        response = response_classes[self.parameter_data_format]()
        response.unpack(result_datagram)
        return response

    def __init__(self, parameter_data_format=0, alloc''')])
refactor('unix-read-for', 'C25', [('unix.py', '''        start_time = time.time()
''', '''        deadline = time.time() + self._read_timeout
'''), ('unix.py', 'if time.time() > start_time + self._read_timeout:', 'if time.time() > deadline:'), ('unix.py', '''        while not select.select([self.fd], [], [], 0)[0]:
''', '''        while True:
            readable, _, _ = select.select([self.fd], [], [], 0)
            if readable:
                break
''')])
refactor('adapter-generic', 'C17 C25 C28', [('__init__.py', '''    def call(self, command):
        return self.call_wrapper(self.executer.call, command)

    def send(self, command, callback=None):
        return self.call_wrapper(self.executer.send, command, callback)
''', '''    def _wrap(self, name, *args):
        return self.call_wrapper(getattr(self.executer, name), *args)

    def call(self, command):
        return self._wrap("call", command)

    def send(self, command, callback=None):
        return self._wrap("send", command, callback)
''')])
refactor('gevent-finally', 'C21 C25', [('__init__.py', '''        return_value = func(*args, **kwargs)
        _gevent_friendly_sleep(0)
        return return_value
''', '''        result = func(*args, **kwargs)
        try:
            return result
        finally:
            _gevent_friendly_sleep(0)
''')])
refactor('file-ordering', 'C26 C25', [('__init__.py', '''    if platform_name == 'windows':
        from .win32 import Win32File
        return Win32File(path)
    elif platform_name in ['linux', 'aix']:
''', '''    unix_platforms = frozenset(('linux', 'aix'))
    if platform_name == 'windows':
        from . import win32
        return win32.Win32File(path)
    elif platform_name in unix_platforms:
''')])
refactor('prout-assert-to-if', 'C05 C28', [('cdb/persist/output.py', '''        parameter_list_buffer = parameter_list_buffer_class(
            reservation_key=reservation_key, service_action_reservation_key=service_action_reservation_key, **kwargs)
        self.parameter_list_datagram = parameter_list_buffer.create_datagram()
''', '''        parameters = dict(kwargs)
        parameters.update(reservation_key=reservation_key, service_action_reservation_key=service_action_reservation_key)
        parameter_list_buffer = parameter_list_buffer_class(**parameters)
        self.parameter_list_datagram = bytes(parameter_list_buffer.create_datagram())
''')])
