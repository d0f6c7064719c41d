import json
L=[]
def p(id,title,st,over,qt,why,files,mech,**k):
    assert len(title)<=80,title
    L.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=m,where=files[0]) for m in mech],**k)))
CF='src/CheckedFile.cpp'; IF='src/ImageFileImpl.cpp'
p('P01','Every page written to disk carries its own checksum',
 'Every page the library writes to an E57 file is exactly one physical page long, starts on a page boundary, and ends with the CRC-32C of its own payload in file byte order, computed after the last change to that payload. No write reaches the file by any other way.',
 ['histories','inputs'],'for every sequence of writes, partial page updates, extensions and closes',
 'Tests write small files and re-read them with the same code; they never inspect pages on disk, and a page that is re-written without a fresh checksum only shows for particular offsets.',
 [CF],['page write path: payload update -> checksum -> positioned write of one page'])
p('P02','A page with a bad checksum is never delivered as data',
 'With the full checksum policy every page is verified before any of its bytes reach a caller; with a partial policy, at least every page the policy selects is verified; with no policy none are. Whenever verification finds a stored checksum different from the computed one, the read fails with the bad-checksum error and delivers nothing.',
 ['inputs','configurations'],'for every file content and every checksum policy',
 'No test corrupts a page; the policy arithmetic is only exercised on tiny files.',
 [CF],['read path: page read -> policy decision -> verification -> copy to caller'])
p('P03','Storage failures are always reported',
 'When opening, positioning, reading, writing or closing the underlying file fails, or transfers fewer bytes than asked for, the library call that caused it raises a library error; it never returns as if the operation had succeeded.',
 ['fault_sequences'],'for every operating-system call the library makes and every way it can fail',
 'Tests never inject I/O failures (full disk, short transfer, closed descriptor).',
 [CF],['result checks around each operating-system file call'])
p('P04','Logical and physical file positions are never confused',
 'Every position or length handed to the storage layer, kept in a file structure, or compared, is in the coordinate system (logical, without checksums, or physical, with them) that the receiver expects. Converting between the two is exact: a logical position maps to its page and offset skipping four checksum bytes per page, and back.',
 ['inputs','histories'],'for every position, file size and section layout',
 'Logical and physical offsets agree in the first page, and test files are small; confusion only shows past the first 1020 bytes or at page edges.',
 [CF,IF,'src/CompressedVectorWriterImpl.cpp','src/CompressedVectorReaderImpl.cpp','src/BlobNodeImpl.cpp','src/Packet.cpp'],['offset mode argument of seek/position/length/extend','logicalToPhysical / physicalToLogical','fields and header members holding offsets'])
p('P05','A file opened for reading is never modified',
 'Opening an existing file for reading asks the operating system for read-only access without creating or truncating, and nothing done with it afterwards - reading, cancelling, closing, destroying, or calling a writing function on it - writes to it, removes it or changes its length. Attempts to write report the read-only error.',
 ['histories','programs'],'for every sequence of calls on an image opened for reading',
 'Tests do not compare a file before and after being read, nor call writing functions on reader images.',
 [CF,IF,'src/CompressedVectorNodeImpl.cpp','src/BlobNodeImpl.cpp'],['open flags per mode','read-only guard of the write path','cancel / unlink'])
p('P06','A file becomes a valid E57 only by a complete close',
 'The header that makes a file recognisable as E57 is written only by closing the image, after the whole XML section has been written and its position and lengths are known, as the last change before the file is closed. Cancelling or abandoning an image that is being written removes the file instead, and closing or cancelling an image that is already closed does nothing.',
 ['crash_points','histories','fault_sequences'],'for every point at which writing stops and every order of close, cancel and destruction',
 'Tests only run to a complete close; they do not abandon images mid-way or stop after a particular write.',
 [IF,'src/ImageFile.cpp'],['ImageFile close sequence','cancel and destructor'])
p('P07','Failures do not leak file handles or memory',
 'When a library call fails with an error, every operating-system file handle and every heap object that call acquired and that no surviving object owns has been released. Normal destruction of an object releases everything the object owns, exactly once.',
 ['fault_sequences','inputs'],'for every call and every point inside it at which an error can be raised',
 'Error paths are hardly executed by tests, and leak reports do not fail them.',
 [CF,IF,'src/CompressedVectorReaderImpl.cpp','src/Packet.cpp','src/E57XmlParser.cpp'],['raw owning pointers and descriptors in classes with hand-written destructors','constructors that can throw'])
p('P08','Using a closed image is reported, never acted on',
 'Once an image file has been closed or cancelled, every operation documented to need an open image - on the image, on any of its nodes, on blobs and compressed vectors - fails with the image-not-open error before it reads or changes anything.',
 ['histories','programs'],'for every handle obtained before the close and every operation on it',
 'Tests close an image once at the end and do not keep using its nodes.',
 ['src/NodeImpl.cpp','src/ImageFileImpl.cpp','src/IntegerNodeImpl.cpp','src/FloatNodeImpl.cpp','src/ScaledIntegerNodeImpl.cpp','src/StringNodeImpl.cpp','src/StructureNodeImpl.cpp','src/VectorNodeImpl.cpp','src/BlobNodeImpl.cpp','src/CompressedVectorNodeImpl.cpp'],['checkImageFileOpen at the start of operations'])
p('P09','A writer excludes every other transfer, and open counts stay balanced',
 'A compressed-vector writer can only be opened while no writer and no reader of the image is open, and a reader only while no writer is open; other attempts are refused with the documented error. However a writer or reader ends - close, repeated close, destruction - it is counted out exactly once, and any transfer on a closed one is refused with its not-open error.',
 ['histories'],'for every interleaving of opening, closing, re-closing and destroying readers and writers of one image',
 'Tests use one writer or one reader at a time and close each once.',
 ['src/CompressedVectorNodeImpl.cpp','src/CompressedVectorReaderImpl.cpp','src/CompressedVectorWriterImpl.cpp',IF],['reader and writer counts of the image','isOpen flag of readers and writers'])
p('P10','Destroying any library object never raises an error',
 'No destructor of the library lets an exception escape, whatever state the object is in and whatever fails while it cleans up.',
 ['fault_sequences','histories'],'for every object state and every failure during clean-up',
 'An exception from a destructor terminates the process and needs an I/O failure during clean-up, which tests never cause.',
 ['src/ImageFileImpl.cpp','src/CheckedFile.cpp','src/CompressedVectorReaderImpl.cpp','src/CompressedVectorWriterImpl.cpp','src/ReaderImpl.cpp','src/WriterImpl.cpp','src/Packet.cpp'],['try/catch in destructors that perform work'])
p('P11','Each node has at most one parent, one name and one image',
 'Attaching a node to a tree fails, with the documented error and leaving both trees as they were, when the node already has a parent, when the name or index is already taken, or when it belongs to a different image. A child that is refused keeps no link to the container that refused it.',
 ['histories','programs'],'for every order of building element trees',
 'Tests build well-formed trees; refused attachments and the state they leave behind are not examined.',
 ['src/NodeImpl.cpp','src/StructureNodeImpl.cpp','src/VectorNodeImpl.cpp','src/CompressedVectorNodeImpl.cpp'],['setParent, set and append'])
p('P12','Homogeneous vectors only hold children of one type',
 'A vector created to be homogeneous refuses, with the documented error, any child whose type differs from its first child. Two elements count as the same type only if their kind and every constraint they declare (bounds, scale, offset, precision, length, number, names and types of children) agree; their current values do not matter.',
 ['inputs','programs'],'for every pair of element trees',
 'Only a few pairs of types are tried by tests.',
 ['src/VectorNodeImpl.cpp','src/StructureNodeImpl.cpp','src/IntegerNodeImpl.cpp','src/ScaledIntegerNodeImpl.cpp','src/FloatNodeImpl.cpp','src/BlobNodeImpl.cpp','src/CompressedVectorNodeImpl.cpp'],['isTypeEquivalent of each node class','homogeneity check when a vector child is set'])
p('P13','A number element never holds a value outside its declared bounds',
 'Creating an integer, scaled-integer or float element whose value lies below its minimum or above its maximum fails with the value-out-of-bounds error, for every way of creating one; the boundary values themselves are accepted. An element read from a file that states no value (as the elements of a prototype may) is exempt.',
 ['inputs'],'for every value, minimum and maximum and every constructor',
 'Tests try a few values of some constructors only.',
 ['src/IntegerNode.cpp','src/ScaledIntegerNode.cpp','src/FloatNode.cpp','src/IntegerNodeImpl.cpp','src/ScaledIntegerNodeImpl.cpp','src/FloatNodeImpl.cpp'],['validateValue on construction'])
p('P14','A typed handle always refers to a node of that type',
 'Converting a generic node handle to a typed one fails with the bad-downcast error unless the node is of exactly that kind, and every node reports its own kind. Inside the library a node is likewise never treated as a kind it has not been checked to be.',
 ['programs','inputs'],'for every node and every conversion, including trees read from hostile files',
 'A wrong unchecked cast is undefined behaviour that needs a node of an unexpected kind; tests always supply the expected one.',
 ['src/IntegerNode.cpp','src/FloatNode.cpp','src/StringNode.cpp','src/ScaledIntegerNode.cpp','src/BlobNode.cpp','src/StructureNode.cpp','src/VectorNode.cpp','src/CompressedVectorNode.cpp','src/DecodeChannel.cpp','src/Decoder.cpp','src/Encoder.cpp'],['type test before each static downcast','type() of each node class'])
p('P15','What the XML writer emits is what the XML reader understands',
 'For every kind of element, each attribute the writer emits is one the reader looks up for that kind, the reader stores it as the same property it was written from, and an attribute or value the writer leaves out is exactly the default the reader assumes when it is absent.',
 ['inputs'],'for every element kind and every combination of attribute values',
 'Round-trip tests cover few element kinds with few attribute combinations; a default that differs shows only for that value.',
 ['src/E57XmlParser.cpp','src/IntegerNodeImpl.cpp','src/ScaledIntegerNodeImpl.cpp','src/FloatNodeImpl.cpp','src/StringNodeImpl.cpp','src/BlobNodeImpl.cpp','src/StructureNodeImpl.cpp','src/VectorNodeImpl.cpp','src/CompressedVectorNodeImpl.cpp'],['writeXml of each node class','startElement / endElement of the parser'])
p('P16','Malformed XML is rejected with a library error',
 'An XML section with an unknown element type, a missing required attribute, a precision or heterogeneity attribute with a value that is not one of those allowed, text or children where they are not allowed, or a root that is not a structure is refused with the bad-XML error, and errors found by the XML parser itself are reported and not ignored.',
 ['inputs'],'for every XML section',
 'Tests do not feed malformed XML.',
 ['src/E57XmlParser.cpp'],['attribute lookups, type dispatch and error callbacks of the SAX handler'])
p('P17','Numbers in a file do not depend on the process locale',
 'The text of every number written to the XML section, and the interpretation of every number read from it, is the same whatever locale the program has installed.',
 ['configurations','inputs'],'for every global locale',
 'Tests run in one locale.',
 ['src/StringFunctions.h','src/StringFunctions.cpp','src/E57XmlParser.cpp','src/CheckedFile.cpp'],['number formatting and parsing helpers'])
p('P18','A record value outside its field bounds is refused on writing',
 'Writing records fails with the value-out-of-bounds error when an integer or scaled-integer field receives a value below its minimum or above its maximum, or a field whose bounds coincide receives any other value; such a value is never encoded as a different one.',
 ['inputs'],'for every record value, field bounds and memory representation',
 'Tests write values inside the bounds.',
 ['src/Encoder.cpp'],['bounds test in each integer encoder before packing'])
p('P19','Records are decoded with the scheme they were encoded with',
 'For every field kind and bounds, the encoding chosen for writing and the decoding chosen for reading agree: same bit count, same word width, same offset from the minimum, same treatment of constant, floating and text fields.',
 ['inputs','configurations'],'for every prototype',
 'Only a handful of field bounds are written and re-read by tests.',
 ['src/Encoder.cpp','src/Decoder.cpp',IF],['encoder and decoder factories','packing and unpacking of one value'])
p('P20','User buffers are never accessed outside their capacity',
 'Transferring values touches only positions below the capacity given for a buffer, at the given stride, and never more values than the caller asked for; an attempt to go beyond the capacity fails with an error.',
 ['inputs'],'for every buffer, capacity, stride, request size and record count',
 'Tests use matching sizes; an off-by-one stays inside allocator slack or needs a particular packet layout.',
 ['src/SourceDestBufferImpl.cpp','src/SourceDestBuffer.cpp','src/CompressedVectorReaderImpl.cpp','src/CompressedVectorWriterImpl.cpp','src/Decoder.cpp','src/Encoder.cpp'],['nextIndex/capacity test in each transfer function','record count checks of read and write'])
p('P21','Values are converted only on request and never truncated silently',
 'A value is converted between integer, floating and text representations only if the buffer was declared with conversion enabled, otherwise the conversion-required error is raised; text is never converted to numbers. For every finite value, storing it into a narrower representation that cannot hold it fails with the value-not-representable error instead of wrapping.',
 ['inputs','configurations'],'for every pair of representations and every finite value',
 'The matrix of representations and boundary values is far larger than what tests sample.',
 ['src/SourceDestBufferImpl.cpp'],['conversion and range tests in getNext*/setNext*'])
p('P22','Everything written stays within the limits of the format',
 'Every packet written is at most 64 KiB long, has a length that is a multiple of four, and declares in its header exactly the size, number of streams and stream lengths it contains; section and file headers declare the real extents.',
 ['inputs','histories'],'for every stream mix, record size and write size',
 'Packet composition depends on buffer fill levels that tests do not vary.',
 ['src/CompressedVectorWriterImpl.cpp','src/Packet.cpp','src/BlobNodeImpl.cpp',IF],['packetWrite, header construction'])
p('P23','Structure read from a file is validated before it is used',
 'Headers, sections and packets read from a file are checked - identity, version, sizes, counts, offsets against the bounds that contain them - before any value in them selects memory or a file position, and a violation is refused with a library error.',
 ['inputs'],'for every file content',
 'Tests read well-formed files only.',
 [IF,'src/Packet.cpp','src/SectionHeaders.cpp','src/CompressedVectorReaderImpl.cpp','src/BlobNodeImpl.cpp','src/Decoder.cpp'],['verify() of packets and section headers, readFileHeader, stream index checks'])
p('P24','A cached packet in use is never replaced and is the one asked for',
 'While a packet obtained from the read cache is in use its memory is not re-used for another packet, it is released on every way out, and the cache never returns for one file position a packet that was read from another or whose reading failed.',
 ['histories','fault_sequences'],'for every sequence of packet requests, releases and failures',
 'Eviction needs many packets and failures in between; tests read single-packet files.',
 ['src/Packet.cpp','src/CompressedVectorReaderImpl.cpp'],['lock count and labels of the packet cache'])
p('P25','The stored record count is the number of records transferred',
 'The record count stored for a compressed vector is the sum of the records of all successful write calls of its writer, set when the writer is closed; a reader never delivers more records than stored and returns exactly how many it delivered.',
 ['histories','inputs'],'for every sequence of write and read calls',
 'Tests write once and read once with matching sizes.',
 ['src/CompressedVectorWriterImpl.cpp','src/CompressedVectorReaderImpl.cpp','src/CompressedVectorNodeImpl.cpp'],['record counters'])
p('P26','Everything the simple API writes, the simple API reads back',
 'Every header field of an image file, a scan and an image that the simple writer stores under an element name is read by the simple reader from the same element name into the same field of the same structure, and each per-point field is read and written under one and the same name.',
 ['inputs'],'for every header field and every point field',
 'Tests compare few fields after a round trip; most optional fields are never set.',
 ['src/WriterImpl.cpp','src/ReaderImpl.cpp'],['field by field set/get of the simple API'])
p('P27','Point buffers of the simple API are allocated, bound and freed consistently',
 'For every point field the buffer allocated when the field is present is the one bound to that field name for transfer with its own element type, and is freed exactly once if and only if it was allocated by the structure; fields that are absent are neither allocated nor bound.',
 ['inputs','configurations'],'for every combination of point fields',
 'Tests use a few field combinations.',
 ['src/E57SimpleData.cpp','src/ReaderImpl.cpp','src/WriterImpl.cpp'],['point data constructor/destructor, buffer set-up functions'])
p('P28','Unusable scan and image descriptions are refused before anything is written',
 'When the simple writer is given a scan description with an impossible number type, or a scale of zero for values stored as scaled integers, it refuses it with the documented error before adding anything for that scan to the file; an identifier that the format requires and the description lacks is generated.',
 ['inputs'],'for every scan description',
 'Tests cover a few invalid headers and do not check what the file then contains.',
 ['src/WriterImpl.cpp','src/E57SimpleWriter.cpp'],['header validation in the scan creation path'])
p('P29','Every error code has its own description',
 'Each error code of the public interface has a description of its own that differs from that of every other code, and an error raised by the library carries the code, location and context it was raised with.',
 ['inputs'],'for every error code',
 'Tests look up few codes.',
 ['src/E57Exception.cpp','include/E57Exception.h'],['code to text mapping, exception constructor'])
p('P30','Errors surface as library errors and are never swallowed',
 'Every error the library detects leaves the public interface as a library exception carrying an error code; a caught error is either passed on, turned into another library error, or dropped only in a destructor or in a query documented to answer false.',
 ['fault_sequences','inputs'],'for every error raised anywhere in the library',
 'Swallowed errors look like success, and error paths are barely run by tests.',
 ['src/Node.cpp','src/ImageFile.cpp','src/ImageFileImpl.cpp','src/ReaderImpl.cpp','src/WriterImpl.cpp','src/E57XmlParser.cpp'],['catch clauses, throw expressions'])
p('P31','Names, paths, indices and extensions are validated',
 'Element names and paths that are not well formed, prefixes that are not registered, child indices that do not exist, and extensions whose prefix or URI is already declared are refused with the documented error, and looking up what does not exist reports it instead of returning something else.',
 ['inputs'],'for every name, path, index and extension',
 'Tests try a few names.',
 [IF,'src/StructureNodeImpl.cpp','src/VectorNodeImpl.cpp','src/NodeImpl.cpp'],['name parsing, child lookup, extension registration'])
p('P32','Blob transfers stay inside the blob',
 'Reading or writing any byte range that is not entirely inside the declared length of a blob - for any start and count, negative and huge ones included - is refused with the bad-argument error without touching the file, and any other range transfers exactly those bytes of that blob.',
 ['inputs'],'for every start, count and blob length',
 'Tests do not use ranges at or beyond the ends.',
 ['src/BlobNodeImpl.cpp'],['range test and offset computation in read and write'])
p('P33','Buffer lists are checked against the prototype before any transfer',
 'Opening a reader or writer, or giving it new buffers, fails with the documented error when buffers differ in capacity, name a field twice, name a field that does not exist, leave a field of the prototype without a buffer when writing, or differ from the ones the transfer was opened with; buffers accepted later are the ones actually used.',
 ['inputs','histories'],'for every list of buffers',
 'Tests pass consistent lists, and seldom change buffers during a transfer.',
 ['src/SourceDestBufferImpl.cpp','src/CompressedVectorNodeImpl.cpp','src/CompressedVectorReaderImpl.cpp','src/CompressedVectorWriterImpl.cpp','src/StructureNodeImpl.cpp'],['setBuffers, checkBuffers, checkCompatible'])
p('P34','Values survive a write/read round trip bit for bit',
 'Any record or element value that is accepted on writing is returned unchanged on reading, up to the documented scaling.',
 ['inputs'],'for every value and prototype',
 'Values are sampled.',
 ['src/Encoder.cpp','src/Decoder.cpp','src/StringFunctions.h'],['bit packing, number formatting'])
p('P35','Reading any file finishes within bounded time and memory',
 'Opening and reading a file of a given size takes time and memory bounded by a function of that size, whatever its contents.',
 ['inputs'],'for every file',
 'Only small valid files are read.',
 ['src/CompressedVectorReaderImpl.cpp','src/E57XmlParser.cpp'],['packet search loops, recursion of the element tree'])
p('P36','Separate images never affect one another',
 'The library keeps no changeable state outside the objects it hands out, so what is done with one image, node, reader or writer never changes what another one does; the generator of random identifiers is the only exception. Settings of the whole process (locale, working directory, environment, signal handling, formatting of the standard streams) are left alone, the process is never ended, and the XML parser platform is shut down exactly as often as it was started, whether opening succeeds or fails.',
 ['histories'],'for every interleaving of operations on any number of images',
 'Tests use one image at a time, and a fresh process would hide what an earlier image left behind.',
 ['src/E57XmlParser.cpp','src/CheckedFile.cpp','src/Common.cpp','src/ImageFileImpl.cpp'],['static storage, process-wide calls, start and end of the XML platform'])
p('P37','Queries do not change what they look at',
 'Asking an image, node, buffer, reader or writer for anything - a value, bounds, a child, a name, a path, a count, whether something exists, whether it is open - leaves the image, its tree, every transfer and the file exactly as they were, whatever the answer, and so does reading descriptions and sizes through the simple reader.',
 ['histories','inputs'],'for every query and every state it is asked in',
 'Tests check answers, not that asking had no effect, and effects may only show after particular sequences.',
 ['src/NodeImpl.cpp','src/StructureNodeImpl.cpp','src/VectorNodeImpl.cpp','src/ImageFileImpl.cpp','src/ReaderImpl.cpp'],['const member functions of the public classes and everything they call'])
with open('/verif/properties.jsonl','w') as f:
    for x in L: f.write(json.dumps(x)+'\n')
print(len(L))
