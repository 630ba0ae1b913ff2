import json
S='/repo/mdflib/src/'
def P(id,title,st,over,q,why,files,mech,obs,state=None,hook=None):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook))
L=[]
L.append(P('C01','Saved samples are read back exactly once, in order, unchanged',
 'Every sample saved to a channel group between the start and the stop of a measurement is, after the measurement is finalized and the file is re-opened, returned by a read of that group exactly once, in the order it was saved, with the value and validity every channel had when it was saved. This holds for MDF 3 and MDF 4 files, for compressed and uncompressed storage, with periodic saving on or off, for one or several data groups, and for several channel groups sharing one data group. The sample count reported for each group equals the number of samples returned.',
 ['histories','configurations','schedules'],'every sequence of save calls, every split of it into background write passes, every writer type and storage option',
 'The repository writes a few fixed files and mostly checks that calls succeed; the number, size and interleaving of samples relative to background flushes and block limits is never varied.',
 ['mdflib/src/writecache.cpp','mdflib/src/samplequeue.cpp','mdflib/src/writer4samplequeue.cpp','mdflib/src/convertersamplequeue.cpp','mdflib/src/readcache.cpp','mdflib/src/dg4block.cpp','mdflib/src/dg3block.cpp','mdflib/src/cg4block.cpp','mdflib/src/cg3block.cpp'],
 [('per-data-group sample queue','mdflib/src/samplequeue.cpp'),('background flush','mdflib/src/writecache.cpp WorkThread'),('record parsing','mdflib/src/readcache.cpp')],
 ['MdfWriter::SaveSample','MdfReader::ReadData + channel observers'],
 [dict(name='queue_',meaning='samples accepted but not yet on disk',where='mdflib/src/samplequeue.h')]))
L.append(P('C02','Pre-trigger keeps exactly the samples inside the window',
 'When samples are saved in time order before the measurement is started, the file finally contains, for each data group of an MDF 3, MDF 4 or bus logger measurement, every sample no earlier than the start time minus the configured pre-trigger time, plus the single latest sample before that window, and no older sample. How often the background writer ran before or after the start makes no difference to which samples are kept.',
 ['histories','schedules','configurations'],'every pre-trigger time, every series of sample times before and after the start, every placement of background passes',
 'Only default pre-trigger configurations appear in the tests and none compares the stored set with the window.',
 ['mdflib/src/samplequeue.cpp','mdflib/src/writecache.cpp','mdflib/src/mdfwriter.cpp'],
 [('queue trimming','mdflib/src/samplequeue.cpp TrimQueue')],['MdfWriter::PreTrigTime','MdfWriter::StartMeasurement','MdfReader::ReadData']))
L.append(P('C03','Master time is relative to the measurement start',
 'The master (time) value stored for a sample equals the time given when the sample was saved minus the start time of its measurement, also for samples saved before the start was known (negative values) and for every measurement appended to a file, expressed through the conversion and data type of the master channel; for a master channel whose calculation is switched off it is the value the user set, and other groups are not affected. The header start time is the start time of the first measurement that stored samples and is not moved by later measurements.',
 ['histories','inputs'],'every start time, every sample time before or after it, every order of save and start calls, repeated measurements',
 'Tests use wall-clock times and look only at relative spacing of a few samples.',
 ['mdflib/src/mdfwriter.cpp','mdflib/src/samplequeue.cpp','mdflib/src/ichannel.cpp'],
 [('time recalculation at start','mdflib/src/samplequeue.cpp RecalculateTimeMaster'),('start time handling','mdflib/src/mdfwriter.cpp StartMeasurement')],['MdfReader::GetStartTime','master channel observer']))
L.append(P('C04','Appending a measurement never alters earlier ones',
 'Opening an existing file with a writer and adding a further measurement leaves every earlier data group, channel group, channel, sample and header text in the file readable and unchanged, in the same order, ahead of the new data groups; the new measurement is itself read back complete. This holds for any number of successive appends.',
 ['histories','configurations'],'every sequence of create/append sessions with any mix of group layouts',
 'The append tests check group counts for two or three identical sessions and never the earlier contents.',
 ['mdflib/src/mdfwriter.cpp','mdflib/src/mdf4writer.cpp','mdflib/src/mdf3writer.cpp','mdflib/src/mdf4file.cpp','mdflib/src/hd4block.cpp','mdflib/src/mdfblock.cpp'],
 [('link lists extended in place','mdflib/src/mdfblock.h WriteLink4List'),('file opened for append','mdflib/src/mdfwriter.cpp Init')],['MdfWriter::Init on an existing file','MdfReader']))
L.append(P('C05','No schedule of writers and flusher loses, repeats or reorders',
 'With several threads saving samples, prepared records or bus messages concurrently, each to its own channel group, while the background writer runs at arbitrary moments and the measurement is started and stopped, each thread\'s samples appear in the file exactly once and in that thread\'s order. All calls complete under every schedule, and no two threads ever touch the same data inside the library without a lock or an atomic ordering them.',
 ['schedules','histories'],'every interleaving of save, start, stop calls and background passes at lock granularity, and every pair of memory accesses in them',
 'Tests run one producer with a flush period of ten seconds, so a second pass almost never happens.',
 ['mdflib/src/writecache.cpp','mdflib/src/samplequeue.cpp','mdflib/src/writer4samplequeue.cpp'],
 [('single queue mutex','mdflib/src/writecache.h locker_'),('stop flag and worker join','mdflib/src/writecache.cpp StopWorkThread')],['MdfWriter public calls','MdfReader']))
L.append(P('C06','The file on disk is readable at every interruption point',
 'If the process writing an MDF 3, MDF 4 or bus logger measurement disappears at any moment between two calls after the measurement was initialised, the file left behind opens, shows the complete configuration, and yields for every group a prefix of the samples saved so far that contains everything an earlier completed background write stored; an uncompressed periodic measurement never loses a sample that was already flushed.',
 ['crash_points','histories'],'every prefix of every call sequence, with background passes at any point',
 'No test ever inspects a file before finalisation.',
 ['mdflib/src/writer4samplequeue.cpp','mdflib/src/samplequeue.cpp','mdflib/src/mdfwriter.cpp','mdflib/src/dt4block.cpp'],
 [('block length updated after each pass','mdflib/src/writer4samplequeue.cpp')],['copy of the file taken between calls, read with MdfReader']))
L.append(P('C07','Written files are well-formed MDF files',
 'Every file produced is a valid MDF container judged from its bytes alone: each link is zero or leads to a block of the kind required there lying wholly inside the file without overlapping another block, declared block lengths and link counts match the block contents, record sizes and channel positions fit the record, and the data bytes stored for a data group are exactly the declared number of records. The identification block carries the version and a finalized mark.',
 ['configurations','histories'],'every configuration of header, groups, channels, metadata, storage option and append history',
 'Tests read files only through the same library, so a mistake made symmetrically by reader and writer is invisible.',
 ['mdflib/src/mdfblock.cpp','mdflib/src/mdf4file.cpp','mdflib/src/mdf3file.cpp','mdflib/src/idblock.cpp','mdflib/src/dl4block.cpp','mdflib/src/dz4block.cpp','mdflib/src/hl4block.cpp','mdflib/src/cg4block.cpp','mdflib/src/cn4block.cpp'],
 [('block writing and link patching','mdflib/src/mdfblock.cpp'),('position calculation','mdflib/src/cg4block.cpp PrepareForWriting')],['raw file bytes, independent parser']))
L.append(P('C08','Channel values are coded bit-exactly in the record',
 'Setting a channel value and reading it back from the same record gives the same value for every integer, floating point, text, byte-array, CANopen and complex-free data type, byte order, bit count and bit position that the channel type supports. The bytes in the record are those the MDF standard prescribes for that position, and setting one channel never changes the value of another channel that does not overlap it.',
 ['inputs','configurations'],'every data type, byte order, bit count, byte and bit offset, value, and order of setting several channels',
 'The existing channel tests use a handful of widths at offset zero and check only the value set last.',
 ['mdflib/src/ichannel.cpp','mdflib/src/dbchelper.cpp','mdflib/src/cn4block.cpp','mdflib/src/mdfhelper.cpp','mdflib/src/cn3block.cpp'],
 [('bit packing','mdflib/src/dbchelper.cpp'),('typed setters','mdflib/src/ichannel.cpp')],['IChannel::SetChannelValue','IChannel::GetChannelValue','IChannelGroup::SampleBuffer']))
L.append(P('C09','Reading does not depend on how the data are stored',
 'The samples read from a data group depend only on its logical byte stream: splitting that stream at arbitrary byte positions over one or many data blocks, chaining lists of blocks, compressing some or all of them with or without transposition, using equal-length or offset-table lists, or leaving gaps between blocks in the file never changes a value, an order or a count. Records of several groups interleaved through record identifiers of 1, 2, 4 or 8 bytes are attributed to the right group.',
 ['inputs','configurations'],'every fragmentation, block kind, list shape, record identifier width and interleaving',
 'The sample files in the tests come from few tools and each stores data one way.',
 ['mdflib/src/readcache.cpp','mdflib/src/dg4block.cpp','mdflib/src/datalistblock.cpp','mdflib/src/dl4block.cpp','mdflib/src/hl4block.cpp','mdflib/src/dz4block.cpp','mdflib/src/dt4block.cpp'],
 [('block list iteration','mdflib/src/readcache.cpp'),('decompression','mdflib/src/dz4block.cpp')],['MdfReader::ReadData']))
L.append(P('C10','Partial reads are slices of the full read',
 'Reading a sample interval (the first sample of a group is number one) delivers, for every observed channel, exactly the samples of that interval with the same values as a full read, and nothing outside it. Reading with any subset of channels observed, reading repeatedly, or reading data groups in any order gives the same values as one full read.',
 ['inputs','histories'],'every interval, subset of observers, order and repetition of reads',
 'One interval of one file is tried at most.',
 ['mdflib/src/readcache.cpp','mdflib/src/dg4block.cpp','mdflib/src/dg3block.cpp','mdflib/src/dgrange.cpp','mdflib/src/cgrange.cpp','mdflib/src/channelobserver.h'],
 [('range bookkeeping','mdflib/src/cgrange.cpp'),('observer attach and detach','mdflib/src/idatagroup.cpp')],['MdfReader::ReadPartialData','MdfReader::ReadData','ISampleObserver']))
L.append(P('C11','Variable-length values keep their exact bytes',
 'Text and byte-array values of any length, including empty, stored as variable-length, maximum-length or fixed-length channel data are read back with exactly the bytes saved, each with its own sample, for every storage variant (signal data, separate variable-length group, inline) and with or without compression. A direct read by offset of the variable-length store returns the same bytes.',
 ['inputs','configurations','histories'],'every sequence of lengths, storage variant, number of variable-length channels and compression setting',
 'Tests store few short strings.',
 ['mdflib/src/cn4block.cpp','mdflib/src/writer4samplequeue.cpp','mdflib/src/readcache.cpp','mdflib/src/channelobserver.h','mdflib/src/dg4block.cpp','mdflib/src/sd4block.cpp'],
 [('offset bookkeeping','mdflib/src/cn4block.cpp'),('VLSD channel group records','mdflib/src/writer4samplequeue.cpp')],['MdfReader::ReadData','MdfReader::ReadVlsdData']))
L.append(P('C12','Engineering values follow the stored conversion rule',
 'For every raw value the engineering value delivered equals the result of the channel\'s conversion rule (none, linear, rational, polynomial, value table with and without interpolation, value range, value or range to text, text to value, text to text, including the default entries) applied to it; interval ends belong to the range the standard assigns them to. The rule survives writing and re-reading the file unchanged.',
 ['inputs','configurations'],'every conversion kind, parameter set and raw value, including values on and between the table entries',
 'Existing tests check one table per kind at a few interior points.',
 ['mdflib/src/ichannelconversion.cpp','mdflib/src/cc4block.cpp','mdflib/src/cc3block.cpp','mdflib/src/channelobserver.h'],
 [('conversion switch','mdflib/src/ichannelconversion.cpp')],['IChannelObserver::GetEngValue','IChannelConversion::Convert']))
L.append(P('C13','Bus messages are recorded and recovered field by field',
 'A CAN, LIN, Ethernet, MOST or FlexRay message saved through the bus interface is found in the file, in the group of its message kind, with every attribute and every payload byte it had, for each storage kind, maximum length, writer and mandatory-members setting. CAN messages recovered through the message observer equal the messages saved.',
 ['inputs','configurations'],'every message kind, attribute value and payload length within the standard limits, storage kind and writer type',
 'The bus logger tests are not part of the stable suite and use one message pattern.',
 ['mdflib/src/canmessage.cpp','mdflib/src/linmessage.cpp','mdflib/src/ethmessage.cpp','mdflib/src/mostmessage.cpp','mdflib/src/flexraymessage.cpp','mdflib/src/canconfigadapter.cpp','mdflib/src/linconfigadapter.cpp','mdflib/src/ethconfigadapter.cpp','mdflib/src/mostconfigadapter.cpp','mdflib/src/flexrayconfigadapter.cpp','mdflib/src/canbusobserver.cpp'],
 [('record serialisation','mdflib/src/canmessage.cpp ToRaw'),('channel layout','mdflib/src/canconfigadapter.cpp')],['MdfWriter::Save*Message','channel observers','CanBusObserver']))
L.append(P('C14','Configuration and metadata survive a write and a read',
 'All descriptive information set before a file is written (header texts, file history, events, hierarchies, source information, group and channel names, comments, units, flags, limits, array shapes and axes, typed metadata properties, the order of all lists, and references from one block to another in either direction) is returned unchanged by a reader of that file. Characters with a meaning in XML and non-ASCII text are preserved.',
 ['inputs','configurations'],'every combination of optional items, texts and list lengths',
 'Tests set one fixed value per item and several of them are outside the stable suite.',
 ['mdflib/src/hd4block.cpp','mdflib/src/fh4block.cpp','mdflib/src/ev4block.cpp','mdflib/src/ch4block.cpp','mdflib/src/si4block.cpp','mdflib/src/md4block.cpp','mdflib/src/ca4block.cpp','mdflib/src/cn4block.cpp','mdflib/src/cg4block.cpp','mdflib/src/ixmlnode.cpp','mdflib/src/expatxml.cpp','mdflib/src/imetadata.cpp'],
 [('block serialisation','mdflib/src/*4block.cpp'),('XML comments','mdflib/src/ixmlfile.cpp')],['public interfaces of the writer before and of the reader after']))
L.append(P('C15','Attached files are exported byte for byte',
 'An attachment embedded in a file, compressed or not, is exported with exactly the bytes the attached file had, whatever its size and content, and its name, type, flags and checksum describe those bytes. Several attachments in one file, and attachments present when a file is appended to, do not influence each other; a sorted copy of the file exports the same bytes.',
 ['inputs','histories'],'every content, size, number of attachments, compression choice and append history',
 'One text file is attached in the tests.',
 ['mdflib/src/at4block.cpp','mdflib/src/zlibutil.cpp','mdflib/src/cryptoutil.cpp'],
 [('attachment write and export','mdflib/src/at4block.cpp')],['MdfReader::ExportAttachmentData','IAttachment']))
L.append(P('C16','Sorting a file preserves its contents',
 'Running the sorting task on an MDF 4 file yields a file in which each data group holds one channel group and whose channel groups, channels, samples, values and validity are those of the original, in the same order within each group; the start time and texts of the header and the file history are kept. A file that is already sorted keeps its contents. The source file is not modified, an existing destination is replaced only when overwriting is enabled, and a task that fails (an MDF 3 source, a destination that may not be replaced) leaves no new file behind.',
 ['inputs','configurations'],'every unsorted layout, number of groups, record interleaving and channel content',
 'The task is exercised for its property accessors only.',
 ['mdflib/src/mdftask.cpp','mdflib/src/sortingtask.cpp','mdflib/src/copysampleobserver.cpp','mdflib/src/convertersamplequeue.cpp'],
 [('copying observer','mdflib/src/copysampleobserver.cpp')],['MdfTask::Run','MdfReader before and after']))
L.append(P('C17','Time stamps denote the same instant in every representation',
 'Converting between nanoseconds since 1970, calendar fields, MDF 3 date and time texts, ISO texts, CANopen date and time values and the time stamps stored in headers, histories and channels preserves the instant, for every valid instant and time-zone or daylight offset. The conversions agree with the proleptic Gregorian calendar.',
 ['inputs'],'every instant in range and every offset, in particular month and year ends, leap days and half-hour offsets',
 'Tests convert the current time.',
 ['mdflib/src/mdfhelper.cpp','mdflib/src/mdf4timestamp.cpp','mdflib/src/mdf3timestamp.cpp','mdflib/src/hd3block.cpp','mdflib/src/ichannel.cpp'],
 [('calendar conversion','mdflib/src/mdfhelper.cpp'),('time stamp block','mdflib/src/mdf4timestamp.cpp')],['MdfHelper','MdfDateTime','IHeader::StartTime']))
L.append(P('C18','Invalidation bits mark exactly the samples declared invalid',
 'A sample of a channel is reported valid or invalid exactly as it was declared when it was saved, for every channel, whatever the other channels of the group were declared; channels without invalidation bits and channels flagged always invalid are reported accordingly.',
 ['inputs','histories','configurations'],'every pattern of validity over channels and samples, every number of channels and position of the bits',
 'The tests use a single invalid channel.',
 ['mdflib/src/cn4block.cpp','mdflib/src/cg4block.cpp','mdflib/src/channelobserver.h'],
 [('bit position','mdflib/src/cn4block.cpp SetValid/GetValid')],['IChannel::SetValid','IChannelObserver::IsValid']))
L.append(P('C19','Compression and transposition are lossless inverses',
 'Deflating and inflating, and transposing and restoring, any byte string with any record width gives back the original bytes; a compressed stream that is cut short, altered or larger than the announced size is reported as failure rather than delivered, and inflating a stated number of stored bytes consumes no byte beyond them.',
 ['inputs'],'every byte string, size and record width',
 'Two strings are tried.',
 ['mdflib/src/zlibutil.cpp','mdflib/src/dz4block.cpp'],
 [('zlib wrapper and transposition','mdflib/src/zlibutil.cpp')],['zlibutil.h functions','MdfReader']))
L.append(P('C20','Array channels keep every element in its place',
 'An array channel of any shape keeps each element value at its index through save and read, together with its dimensions and type, and neighbouring channels are not disturbed.',
 ['inputs','configurations'],'every number and size of dimensions, element type and value assignment',
 'The array tests are outside the stable suite and use one shape.',
 ['mdflib/src/ca4block.cpp','mdflib/src/ichannelarray.cpp','mdflib/src/cn4block.cpp','mdflib/src/ichannel.cpp'],
 [('element offset','mdflib/src/ichannel.cpp'),('array block','mdflib/src/ca4block.cpp')],['IChannel::SetChannelValue with index','IChannelObserver::GetChannelValue with index']))
L.append(P('C21','An unfinished file is completed to what its bytes contain',
 'An MDF 4 file marked as not finalized, whose last data block length, sample counts and variable-length sizes of the last data group were never updated, is read with sample counts and data that equal the complete records present in its data blocks; a record cut off at the end is not delivered.',
 ['crash_points','inputs'],'every combination of pending-update flags, every cut position and record mix',
 'One prepared file is read.',
 ['mdflib/src/mdf4file.cpp','mdflib/src/dg4block.cpp','mdflib/src/idblock.cpp'],
 [('finalisation','mdflib/src/mdf4file.cpp FinalizeFile')],['MdfReader::IsFinalized','MdfReader::ReadData']))
L.append(P('C22','Writer calls outside their state have no effect on the file',
 'Samples offered while no session is running (before the measurement is initialised, after it is stopped or finalized) leave no trace in the file and do not disturb the samples accepted. Stopping a measurement that was never started, or stopping or finalizing once more, keeps the file contents intact, including later appended measurements. The reported writer state follows the documented life cycle.',
 ['histories'],'every sequence of public writer calls',
 'Tests follow the documented order only.',
 ['mdflib/src/mdfwriter.cpp','mdflib/src/writecache.cpp','mdflib/src/mdf4writer.cpp','mdflib/src/mdf3writer.cpp'],
 [('state checks','mdflib/src/mdfwriter.cpp')],['MdfWriter::State','return values','MdfReader']))
L.append(P('C23','CSV export shows the values of the file',
 'Exporting MDF files to CSV leaves, for every channel group that holds samples, one CSV file in the output directory (or beside the MDF file if none is given), whatever the names of the groups and files. Read as a semicolon separated table, it holds a header with the names and units of the channels, masters first and otherwise in file order, and one row per sample with the values a reader of the file delivers; an invalid value is an empty cell. Existing files are replaced only when asked for.',
 ['inputs','configurations'],'every file content and export option',
 'The export test checks that a list of files is made.',
 ['mdf2csv/src'],[('export loop','mdf2csv/src')],['mdf2csv program output']))
L.append(P('C24','Sample reduction data are read as stored',
 'For every sample reduction stored with a channel group (MDF 3, and MDF 4 groups without invalidation bytes), reading it delivers the number of intervals, the interval, the sync type and, for every numeric channel, the mean, minimum and maximum of every interval exactly as stored, for row- and column-oriented, listed and compressed storage, and whatever else is read from the file before.',
 ['inputs','configurations'],'every number of intervals, channel layout and storage form',
 'No test reads reduction data.',
 ['mdflib/src/sr4block.cpp','mdflib/src/readcache.cpp','mdflib/src/rd4block.cpp','mdflib/src/rv4block.cpp','mdflib/src/isamplereduction.cpp'],
 [('reduction record parsing','mdflib/src/sr4block.cpp')],['MdfReader::ReadSrData']))
L.append(P('C25','Structured comments keep every entry',
 'A comment built from properties, trees, lists, enumerations, alternative names, formulas, numbers, harmonised units and computation methods and their attributes shows exactly the entries added to it: in the object, in the block it is attached to, and after the file is saved and read. A name in use is not replaced by a later entry, a tree with a known name is merged with it, and every property or enumeration is found by its name at any depth.',
 ['inputs','configurations','histories'],'every combination, nesting and order of entries',
 'Tests compare a few prepared comments, mostly in memory.',
 ['mdflib/src/mdcomment.cpp','mdflib/src/mdlist.cpp','mdflib/src/mdproperty.cpp','mdflib/src/hdcomment.cpp','mdflib/src/md4block.cpp','mdflib/src/hounit.cpp'],
 [('entry lists','mdflib/src/mdlist.cpp'),('XML of a comment','mdflib/src/mdcomment.cpp')],['MdComment getters','IMetaData XML','SetMdComment/GetMdComment of blocks']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
