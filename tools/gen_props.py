import json
L=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=list(observe)
    L.append(d); assert len(title)<=80,title
TCP='src/ur20_fbc_mod_tcp.rs'; COM='src/ur20_1com_232_485_422.rs'; UTIL='src/util.rs'; LIB='src/lib.rs'; ERR='src/error.rs'
p('C01','Serial data is transmitted exactly once, in order',
 'The data segments which a serial module takes over (a segment counts when its sequence number changes in the output image) concatenate to exactly the bytes written for that module with its writer or requested as byte output, in order, each byte once, whatever the module\'s acknowledge delays, receive traffic and the traffic of other modules. A segment stays in the output image unchanged until the next one follows, which happens only after it was acknowledged, and as long as the module acknowledges, a pending segment follows in the very next cycle. Of several byte outputs requested for one channel before a cycle, the last one counts.',
 ['histories','inputs','configurations'],'every sequence of writes, byte requests and cycles, every acknowledge delay, initial image, process data length and number of modules',
 'Tests send a few segments over one module; sequence number wrap-around, delayed acknowledges, several modules and interleaved writes are never combined.',
 [COM,TCP],[('MessageProcessor::next, segmentation of the output buffer',COM),('Coupler::next and set_output, hand-over of written data',TCP)],
 [('out_buf','bytes written but not handed over',COM),('tx_cnt / tx_cnt_ack','sequence number of the last segment and its acknowledge',COM)],
 ['Coupler::next output image','Coupler::writer','Coupler::set_output'])
p('C02','Serial data is received exactly once, in order',
 'The bytes a caller reads for a serial module are exactly the bytes of the segments which the module offered (data available and a sequence number different from that of the last one taken over; after the initialisation the first one counts whatever its number), in order, each segment once, no matter how long a segment stays in the input image and in which portions the data is read. The sequence number seen is acknowledged in the output image of the same cycle. Reading never blocks, returns no more than asked for, returns 0 when nothing is left, and the bytes of one module never reach the reader of another.',
 ['histories','inputs','configurations'],'every sequence of segments, repetitions, cycles and reads, every process data length, number of modules and read size',
 'Tests receive one or two segments with one module; repeated segments, wrap-around, partial reads and several modules are not sampled together.',
 [COM,TCP],[('MessageProcessor::next, receive side',COM),('Read for MessageProcessor',COM)],
 [('in_buf','bytes received but not read',COM),('rx_cnt / rx_cnt_ack','sequence number offered and acknowledged',COM)],
 ['Coupler::reader','Coupler::next output image'])
p('C03','Serial modules are initialised once and only once',
 'In the first successful cycle the output image of every serial module requests a flush of both buffers without a reset, in the second one a reset without a flush; in both nothing is transmitted and nothing is received. From the third cycle on flush and reset are left as found in the output image, never requested again, and the transmit lock is always left as found; a failed cycle does not count, and writing or reading data does not change the sequence.',
 ['histories','configurations','fault_sequences'],'every station, every initial output image, every position of failing cycles',
 'Tests look at the first cycles of one module with a zero image.',
 [TCP,COM],[('init state of the message processor',COM),('Coupler::next',TCP)],
 [('init_state','which part of the handshake is due',COM)],['Coupler::next output image'])
p('C04','Serial flow control obeys the sequence number rules',
 'After the initialisation, a cycle of a serial module either leaves sequence number and data of the output image as found, or starts a new non-empty segment which fits the process data and whose sequence number is the acknowledged one plus one modulo 4; it starts one exactly if data is pending and that number differs from the one in the output image. Each write is cut into segments of its own, all of them full but the last one. The receive acknowledge always repeats the receive sequence number of the input image. No control flag changes.',
 ['histories','inputs'],'every sequence of input images (including arbitrary status bits), writes and cycles',
 'A rule about all reachable traces; tests check single transitions.',
 [COM],[('MessageProcessor::next',COM)],[('tx_cnt','transmit sequence number',COM)],['MessageProcessor::next','Coupler::next output image'])
p('C05','The serial process image codec is lossless and exact',
 'Status flags, sequence numbers, length byte and data of serial process data are decoded and encoded exactly in the documented layout, and decoding an encoded message gives the message again. Encoded messages fill 8 or 16 bytes, unused ones are zero; messages with more than 6 or 14 data bytes or with sequence numbers above 3 are rejected. Frames without header or shorter than their announced data are rejected.',
 ['inputs'],'all status bytes, lengths, data and process data lengths',
 'A handful of images are compared; all 2^16 status/length combinations are not.',
 [COM],[('ProcessInput/ProcessOutput conversions',COM)],observe=['ProcessInput::try_from_byte_message','ProcessOutput::try_from_byte_message','ProcessOutput::try_into_byte_message'])
p('C06','Outputs nobody touched keep their state',
 'A cycle in which no new value is requested returns the output state it was given: every digital, relay, analog and frequency counter output of every module keeps its exact raw value (a disabled analog channel is written as 0), over any number of cycles fed back. Requests for some channels leave all others as they are.',
 ['histories','inputs','configurations'],'every raw output image of every module, range, format, station layout and number of cycles',
 'Rounding drift depends on the raw value: tests try one value per range, out of 2^16 per channel.',
 [TCP,UTIL],[('Coupler::next: decode, merge and re-encode of the output state',TCP),('analog scaling',UTIL)],observe=['Coupler::next output image'])
p('C07','A requested output takes effect in the next cycle, exactly once',
 'A value accepted for an output channel appears in the image returned by the next successful cycle, encoded for that channel, and in no other channel. If several values were requested for the channel, the last one counts. Later cycles do not apply it again: if the controller finds another output state, that state is kept.',
 ['histories','inputs','configurations'],'every interleaving of requests, cycles and externally changed output images, every station',
 'Tests request one value and look at one cycle.',
 [TCP],[('Coupler::set_output and next, pending output requests',TCP)],[('write','pending requests',TCP)],['Coupler::set_output','Coupler::next output image'])
p('C08','Only existing addresses are accepted',
 'Requesting an output for a module which does not exist or a channel which the module does not have fails with an address error and has no effect on later cycles; every existing address is accepted. A reader and a writer exist for exactly the positions of serial modules. This holds at any time, before and after cycles.',
 ['inputs','configurations'],'every module and channel index, also far beyond the station, every station',
 'Tests try one wrong address.',
 [TCP],[('Coupler::set_output, reader, writer',TCP)],observe=['Coupler::set_output','Coupler::reader','Coupler::writer'])
p('C09','Process data of every module is read from its own place',
 'The values reported for a module depend only on the words or bytes which the offset table assigns to it, also at odd byte offsets, and equal the conversion of that data by the module alone; modules without an offset report an empty value for each channel. Offsets inside a byte or below the packed data area and areas which reach beyond the image are rejected with an offset or length error rather than misread.',
 ['inputs','configurations'],'every station layout, offset parity, image content and image length',
 'Tests use a few fixed layouts, nearly always word aligned.',
 [TCP,UTIL],[('process_input_data / process_output_data, byte and bit offsets',TCP)],observe=['process_input_data','process_output_data','Coupler::inputs'])
p('C10','Process data of every module is written to its own place',
 'The encoded outputs of all modules form one image in which the bytes of each module lie exactly at its offset, also at odd byte offsets, and do not disturb a neighbour in the same word; decoding the image gives the values again. Modules without an output offset contribute nothing. Offsets which leave a gap, lie inside a byte or below the packed data area, and lists with the wrong number of modules or with values which a module cannot encode are rejected.',
 ['inputs','configurations'],'every station layout, offset parity and set of values',
 'Tests use a few fixed layouts, nearly always word aligned.',
 [TCP,UTIL],[('process_output_values',TCP),('Coupler::next',TCP)],observe=['process_output_values','Coupler::next output image'])
p('C11','Digital channels correspond to their bits',
 'Channel n of a digital input, digital output or relay module is bit n of its process data, in both directions, for every bit pattern; further bits have no influence and are written as 0, as are channels without a value. The safe power feed module reports each of its seven states from its documented bit, whatever the reserved bits are.',
 ['inputs'],'every bit pattern of every digital, safety and power feed module',
 'Tests decode one or two patterns per module.',
 ['src/ur20_di_generic.rs','src/ur20_do_generic.rs','src/ur20_16do_p.rs','src/ur20_4ro_co_255.rs','src/ur20_pf_o_1di_sil.rs'],[('process_input_data of the inputs','src/ur20_di_generic.rs'),('process_output_data / process_output_values of the outputs','src/ur20_do_generic.rs'),('bit tests','src/util.rs')],observe=['ProcessModbusTcpData::process_input_data','ProcessModbusTcpData::process_output_values'])
p('C12','Analog inputs are scaled exactly',
 'For every raw word, range and data format an analog input reports the physical value defined by the linear scale of that range (27648 steps for format S7, 16384 for S5, signed, also beyond the nominal range), within float precision; disabled channels report that they are disabled. Each channel is converted with its own parameters only. The scale is strictly monotonic.',
 ['inputs','configurations'],'all 2^16 raw words, all ranges, formats and channel combinations',
 'Tests convert a handful of words per range.',
 [UTIL,'src/ur20_ai_ui_generic.rs','src/ur20_4ai_ui_16_diag.rs','src/ur20_8ai_i_16_diag_hd.rs'],[('u16_to_analog_ui_value',UTIL)],observe=['ProcessModbusTcpData::process_input_data'])
p('C13','Analog outputs are encoded to the nearest step',
 'For every range and format a physical value is encoded as the raw step whose value is nearest, values beyond the 16 bit range saturate, and disabled channels and values are written as 0. Encoding the decoded value of any raw word gives that word again, and the output state is decoded like an analog input. Each channel uses its own parameters only.',
 ['inputs','configurations'],'all 2^16 raw words and values on, between and beyond all steps, all ranges, formats and channel combinations',
 'Tests encode round values, where truncation and rounding agree.',
 [UTIL,'src/ur20_4ao_ui_16.rs','src/ur20_4ao_ui_16_diag.rs'],[('analog_ui_value_to_u16 and its inverse',UTIL)],observe=['ProcessModbusTcpData::process_output_values'])
p('C14','Temperatures and resistances are converted exactly',
 'For every raw word the RTD module reports a tenth of the signed word for temperature sensors and the unsigned word scaled by range/27648 for resistances; the thermocouple module reports a tenth of the signed word for thermocouples, nothing for the line break code 32767, and the signed word scaled by range/32767 in volts for voltages. Disabled channels report that they are disabled. Each channel is converted with its own parameters only.',
 ['inputs','configurations'],'all 2^16 raw words, all sensor types, units and channel combinations',
 'Tests convert a handful of words for a few sensor types.',
 ['src/ur20_4ai_rtd_diag.rs','src/ur20_4ai_tc_diag.rs'],[('u16_to_rtd_value',UTIL),('u16_to_thermal_value','src/ur20_4ai_tc_diag.rs')],observe=['ProcessModbusTcpData::process_input_data'])
p('C15','Frequency counter data is lossless',
 'The frequency counter reports for every raw content the 32 bit count, the period duration (in steps of 125 ns, none from the overflow code 0x07FFFFFF on) and the active state of each channel from the documented words and bits. Preset durations (in microseconds up to the maximum of 8.388607 s, longer ones are rejected) and start and stop commands are encoded and decoded without loss. The frequency of a measurement is its count divided by its duration.',
 ['inputs'],'all status and control words, 32 bit values over the full range, all channels',
 'Tests use a few small values of one channel; word order, upper bits and limits hardly matter there.',
 ['src/ur20_2fcnt_100.rs'],[('process_input_data, process_output_data, process_output_values','src/ur20_2fcnt_100.rs'),('ProcessInput::hertz','src/ur20_2fcnt_100.rs')],observe=['ProcessModbusTcpData'])
p('C16','Modules start with the documented default configuration',
 'A module created with defaults, and each default of a module or channel parameter set, has the documented default parameters, the number of channels of its type and the documented amount of process data. Any data is converted by such a module as by one configured with these parameters. The default process messages are those of an all-zero image.',
 ['configurations','inputs'],'every supported module and channel parameter set, all raw words per channel',
 'Tests compare a few of the defaults.',
 [LIB,TCP],[('Default implementations of modules and parameters','src/ur20_*.rs')],observe=['Mod::default','ChannelParameters::default'])
p('C17','Parameter registers are decoded to exactly their documented meaning',
 'Every value of every parameter register of every configurable module is either decoded to the documented setting of the right channel or rejected with the matching parameter error; nothing is mapped to a neighbouring setting. The meaning of a register does not depend on the values of the others, except that substitute values are scaled with the range and format of their channel. Fewer registers than documented are rejected, surplus ones have no influence (the 16 channel output module and the safe power feed module have none and accept none).',
 ['inputs','configurations'],'all 2^16 values of every register of every module, random combinations',
 'Tests decode one valid and a few invalid vectors per module.',
 ['src/ur20_1com_232_485_422.rs','src/ur20_2fcnt_100.rs','src/ur20_4ai_rtd_diag.rs','src/ur20_4ai_tc_diag.rs','src/ur20_4ai_ui_16_diag.rs','src/ur20_4ao_ui_16.rs','src/ur20_4ao_ui_16_diag.rs','src/ur20_4ro_co_255.rs','src/ur20_8ai_i_16_diag_hd.rs','src/ur20_ai_ui_generic.rs','src/ur20_di_generic.rs','src/ur20_do_generic.rs','src/lib.rs'],[('from_modbus_parameter_data and the FromPrimitive derived enums','src/ur20_*.rs')],observe=['FromModbusParameterData::from_modbus_parameter_data'])
p('C18','Modules are identified exactly',
 'Every 32 bit module identifier maps to the documented module type or is rejected as unknown; type, identifier, order name and category convert into each other without loss, and names are recognised in any letter case. Each type has the documented category and number of channels. No two types share an identifier or a name.',
 ['inputs'],'all 2^32 identifiers, all types, all upper/lower case spellings and near misses of the names',
 'Tests look up a few identifiers and names.',
 [LIB],[('ModuleType conversions',LIB)],observe=['ModuleType::try_from_u32','ModuleType::from_str','Display','ModuleCategory'])
p('C19','Only consistent configurations make a coupler',
 'A coupler is created from exactly those configurations which have one parameter block and two offset words per module and valid parameters in every block; all others are rejected with the matching error, and unsupported module types never yield a coupler. In a new coupler each position has the type, channels, parameters and process data of its entry in the configuration, and nothing else. The number of parameter registers announced for a type is what creating such a module needs.',
 ['configurations','inputs'],'every list of module types with parameters and offsets, also inconsistent ones',
 'Tests build a few stations.',
 [TCP],[('CouplerConfig::validate and Coupler::new',TCP),('param_register_count',TCP)],observe=['Coupler::new','ModbusParameterRegisterCount'])
p('C20','No input makes the library panic, overflow or hang',
 'Whatever images, offsets, parameters, values, requests and strings are passed, for supported module types every call returns a value or an error in bounded time: it never panics, overflows an integer, or accesses data out of bounds. This includes modules whose public parameters were changed after creation. A coupler remains usable after any error.',
 ['inputs','configurations','histories'],'every input of every public function (sound, nearly sound and arbitrary)',
 'Robustness against arbitrary input cannot be sampled with the few wrong inputs of the tests.',
 [TCP,COM,UTIL,LIB],[('length checks and fallible conversions','src/*.rs')],observe=['all public functions'])
p('C21','A failed cycle can be repeated',
 'If a cycle fails, because the images do not fit or a requested value cannot be encoded, the error is reported and no serial data is lost, duplicated or reported twice; if the images could not be decoded, all pending requests also stay pending and the reported values stay as they were. A request which cannot be encoded fails one cycle only. The next sound cycle behaves as if the failed one had not happened.',
 ['fault_sequences','histories'],'every kind of failing cycle at every position of every history',
 'Tests check that an error is returned, not what happens afterwards.',
 [TCP,COM],[('Coupler::next, order of decoding, encoding and state changes',TCP)],[('message processors','serial state',TCP),('write','pending requests',TCP)],['Coupler::next','Coupler::inputs','Coupler::outputs'])
p('C22','Reported inputs and outputs match the last cycle',
 'After a successful cycle the reported input and output values are those of the input and output images given to it, for each module and channel; a serial module reports just the bytes which its input image marks as available and which its output image carries as a new segment, never raw process data. Before the first cycle nothing is reported, and requests alone change no reported value.',
 ['histories','configurations'],'every history of cycles, requests and reads on every station',
 'Tests check reported values after one cycle of a few stations.',
 [TCP],[('Coupler::inputs / outputs',TCP)],[('in_values / out_values','reported values',TCP)],['Coupler::inputs','Coupler::outputs'])
p('C23','Couplers are independent of each other and of the thread',
 'The same configuration and history always give the same results, whether a coupler runs alone, repeatedly, interleaved with others, in parallel with couplers in other threads, or is moved between threads. Stateless conversions give the same result for the same data at any time. A coupler can be sent to another thread.',
 ['schedules','histories'],'every interleaving of operations on several couplers, every thread schedule',
 'Tests never use two couplers at once.',
 [TCP,COM,LIB],[('all state is owned by the coupler; lazily initialised tables are constant',TCP)],observe=['all operations of Coupler'])
p('C24','Outputs accept exactly the values which fit',
 'A module with outputs encodes exactly those value lists which have one value per channel, each of the kind which its channels accept (or disabled, for all but serial channels); every other list is rejected with a value error. Modules without outputs accept an empty list or one value per channel and encode nothing. Raw data of a wrong length is rejected by every module with a length error.',
 ['inputs'],'every kind of value for every channel of every module, every list and data length',
 'Tests try one wrong kind for some modules.',
 [TCP,'src/ur20_4ao_ui_16.rs','src/ur20_4ao_ui_16_diag.rs','src/ur20_do_generic.rs','src/ur20_16do_p.rs','src/ur20_4ro_co_255.rs','src/ur20_2fcnt_100.rs',COM],[('process_output_values argument checks','src/ur20_*.rs')],observe=['ProcessModbusTcpData::process_output_values','ProcessModbusTcpData::process_output_data'])
p('C25','Each failure is reported as its own kind of error',
 'Each class of failure is reported with the documented error kind, the same for all modules and inputs of that class. Errors describe themselves with the documented, distinct messages. I/O errors are passed on with their message.',
 ['inputs'],'every failure class with arbitrary triggering inputs on every module',
 'Tests mostly check only that some error is returned.',
 [ERR,LIB,TCP],[('Error enum, Display and From',ERR)],observe=['Error'])
p('C26','Addresses and register tables are computed exactly',
 'The module list, offset table and parameter addresses are decoded and computed as documented: two registers per module in order (output offset first), the marker 0xFFFF gives no offset, bit addresses are split into register and bit and merged without loss, and the parameters of module n start 256 registers after those of module n-1. Module lists with an odd or zero number of registers or an unknown identifier are rejected. Published register addresses have their documented values.',
 ['inputs'],'all 2^16 offset words, register lists of any length, all module positions up to 64',
 'Tests decode one list.',
 [TCP,UTIL],[('module_list_from_registers, offsets_of_process_data, param_addresses_and_register_counts, ADDR_* constants',TCP)],observe=['the free functions of ur20_fbc_mod_tcp'])
p('C27','Memory use stays bounded',
 'As long as received data is read and transmitted data is acknowledged, the memory held by a coupler and the memory requested per cycle do not grow with the number of cycles, requests or failed cycles. A dropped coupler leaves nothing behind.',
 ['histories'],'every station and every repeated pattern of cycles, requests, failures, reads and writes',
 'Growth needs thousands of cycles and an allocator which counts.',
 [TCP,COM],[('buffers are drained, pending requests are taken',TCP)],[('in_buf/out_buf','serial buffers',COM),('write','pending requests',TCP)],['the global allocator'])
p('C28','Values are compared, hashed and copied faithfully',
 'Two channel values, process data of serial, counter and safety modules, addresses, offsets, parameter sets, module types, categories or errors are equal exactly if they are of the same kind and all their parts are equal (floats as f32 compares them). Equal addresses, types and categories are the same key of maps and sets, different ones are different keys. A copy equals its original in every part, process data keeps all its parts when it is made a channel value, and a copied configuration makes the same coupler.',
 ['inputs'],'every pair of values, in particular of values which differ in a single part',
 'Tests use equality to judge results, so a comparison which overlooks a part, or a copy which drops one, makes them and the change detection of users blind.',
 [LIB,ERR,TCP,COM],[('ChannelValue, Address, ModuleType, ModuleCategory',LIB),('CouplerConfig, ModuleOffset',TCP),('ProcessInput, ProcessOutput, ModuleParameters, ChannelParameters',COM)],observe=['==, !=, clone, hash of the public types'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in L))
