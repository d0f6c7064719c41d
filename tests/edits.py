"""Edits of /repo's sources: bugs that a property forbids, and rewrites that change nothing."""
CF = 'src/CheckedFile.cpp'
EDITS = []


def bug(props, name, *subs):
    EDITS.append(('bug', props, name, subs))


def same(props, name, *subs):
    EDITS.append(('same', props, name, subs))


# ---- P01
bug('P01', 'no checksum on extend', (CF, "   // Append checksum\n   uint32_t check_sum = checksum( page_buffer, logicalPageSize );", "   uint32_t check_sum = checksum( page_buffer, logicalPageSize - 1 );"))
bug('P01', 'no byte swap', (CF, "crc = swap_uint32( crc );", ""))
bug('P01', 'half swap', (CF, "return ( val << 16 ) | ( val >> 16 );", "return val;"))
bug('P01', 'polynomial', (CF, "0x1EDC6F41", "0x04C11DB7"))
bug('P01', 'no reflect', (CF, "true, true };", "true, false };"))
bug('P01', 'write logical page', (CF, "::write( fd_, page_buffer, physicalPageSize )", "::write( fd_, page_buffer, logicalPageSize )"))
bug('P01', 'seek after', (CF, "   // Seek to start of physical page\n   seek( page * physicalPageSize, Physical );\n\n#if defined( _MSC_VER )\n   int result = ::_write", "   seek( page * logicalPageSize, Physical );\n\n#if defined( _MSC_VER )\n   int result = ::_write"))
bug('P01', 'no seek before write', (CF, "   // Seek to start of physical page\n   seek( page * physicalPageSize, Physical );\n\n#if defined( _MSC_VER )\n   int result = ::_write", "\n#if defined( _MSC_VER )\n   int result = ::_write"))
bug('P01', 'fill after checksum', (CF, "      check_sum; //??? little endian dependency\n", "      check_sum;\n   page_buffer[0] = page_buffer[0] ? page_buffer[0] : 1;\n"))
bug('P01', 'checksum only when page new', (CF, "   *reinterpret_cast<uint32_t *>( &page_buffer[logicalPageSize] ) =\n      check_sum; //??? little endian dependency", "   if ( page != 0 )\n   *reinterpret_cast<uint32_t *>( &page_buffer[logicalPageSize] ) =\n      check_sum;"))
same('', 'checksum via memcpy', (CF, "   *reinterpret_cast<uint32_t *>( &page_buffer[logicalPageSize] ) =\n      check_sum; //??? little endian dependency", "   memcpy( page_buffer + logicalPageSize, &check_sum, sizeof( check_sum ) );"))
same('', 'builtin bswap', (CF, "crc = swap_uint32( crc );\n\n      return crc;", "return __builtin_bswap32( crc );"))
same('', 'page write helper', (CF, "void CheckedFile::writePhysicalPage( char *page_buffer, uint64_t page )\n{", "static void sealPage( char *p )\n{\n   const uint32_t sum = checksum( p, CheckedFile::logicalPageSize );\n   *reinterpret_cast<uint32_t *>( &p[CheckedFile::logicalPageSize] ) = sum;\n}\n\nvoid CheckedFile::writePhysicalPage( char *page_buffer, uint64_t page )\n{"),
     (CF, "   uint32_t check_sum = checksum( page_buffer, logicalPageSize );\n   *reinterpret_cast<uint32_t *>( &page_buffer[logicalPageSize] ) =\n      check_sum; //??? little endian dependency", "   sealPage( page_buffer );"))
same('', 'seek before sum', (CF, "   // Append checksum\n", "   seek( page * physicalPageSize, Physical );\n"), (CF, "   // Seek to start of physical page\n   seek( page * physicalPageSize, Physical );\n\n#if defined( _MSC_VER )\n   int result = ::_write", "#if defined( _MSC_VER )\n   int result = ::_write"))
# ---- P02
bug('P02', 'verify first page only', (CF, "         case ChecksumPolicy::ChecksumAll:\n            verifyChecksum( page_buffer, page );", "         case ChecksumPolicy::ChecksumAll:\n            if ( pageOffset == 0 ) verifyChecksum( page_buffer, page );"))
bug('P02', 'copy before verify', (CF, "      switch ( checkSumPolicy_ )\n", "      memcpy( buf, page_buffer + pageOffset, n );\n      switch ( checkSumPolicy_ )\n"), (CF, "      memcpy( buf, page_buffer + pageOffset, n );\n\n      buf += n;", "      buf += n;"))
bug('P02', 'policy inverted', (CF, "if ( !( page % checksumMod ) ||", "if ( ( page % checksumMod ) ||"))
bug('P02', 'mod wrong', (CF, "100.0 / checkSumPolicy_", "200.0 / checkSumPolicy_"))
bug('P02', 'mask compare', (CF, "if ( check_sum_in_page != check_sum )", "if ( ( check_sum_in_page & 0xFFFFFF ) != ( check_sum & 0xFFFFFF ) )"))
bug('P02', 'verify less', (CF, "const uint32_t check_sum = checksum( page_buffer, logicalPageSize );", "const uint32_t check_sum = checksum( page_buffer, logicalPageSize / 2 );"))
bug('P02', 'mismatch wrong code', (CF, "throw E57_EXCEPTION2( ErrorBadChecksum,", "throw E57_EXCEPTION2( ErrorReadFailed,"))
bug('P02', 'policy dropped', (CF, "fileName_( \"<StreamBuffer>\" ), checkSumPolicy_( policy )", "fileName_( \"<StreamBuffer>\" )"))
bug('P02', 'policy none for writers', ('src/ImageFileImpl.cpp', "CheckedFile::Read, checksumPolicy );", "CheckedFile::Read, ChecksumPolicy::ChecksumSparse );"))
bug('P02', 'clamp', ('src/ImageFileImpl.cpp', "std::min( policy, 100 )", "std::min( policy, 50 )"))
same('', 'read as if chain', (CF, """      switch ( checkSumPolicy_ )
      {
         case ChecksumPolicy::ChecksumNone:
            break;

         case ChecksumPolicy::ChecksumAll:
            verifyChecksum( page_buffer, page );
            break;

         default:
         {
            const auto checksumMod =
               static_cast<unsigned int>( std::nearbyint( 100.0 / checkSumPolicy_ ) );

            if ( !( page % checksumMod ) || ( nRead < physicalPageSize ) )
            {
               verifyChecksum( page_buffer, page );
            }
         }
         break;
      }
""", """      bool check = true;
      if ( checkSumPolicy_ == ChecksumPolicy::ChecksumNone )
      {
         check = false;
      }
      else if ( checkSumPolicy_ != ChecksumPolicy::ChecksumAll )
      {
         const auto checksumMod =
            static_cast<unsigned int>( std::nearbyint( 100.0 / checkSumPolicy_ ) );
         check = ( page % checksumMod == 0 ) || ( nRead < physicalPageSize );
      }
      if ( check )
      {
         verifyChecksum( page_buffer, page );
      }
"""))
same('', 'verify early return', (CF, "   if ( check_sum_in_page != check_sum )\n   {\n      const uint64_t physicalLength", "   if ( check_sum_in_page == check_sum )\n   {\n      return;\n   }\n   {\n      const uint64_t physicalLength"))
# ---- P03
bug('P03', 'short read ok', (CF, "   if ( result < 0 || static_cast<size_t>( result ) != physicalPageSize )\n   {\n      throw E57_EXCEPTION2( ErrorReadFailed", "   if ( result < 0 )\n   {\n      throw E57_EXCEPTION2( ErrorReadFailed"))
bug('P03', 'read at eof', (CF, "   if ( result < 0 || static_cast<size_t>( result ) != physicalPageSize )\n   {\n      throw E57_EXCEPTION2( ErrorReadFailed", "   if ( result < 0 || ( result > 0 && static_cast<size_t>( result ) != physicalPageSize ) )\n   {\n      throw E57_EXCEPTION2( ErrorReadFailed"))
bug('P03', 'write unchecked', (CF, "   if ( result < 0 || static_cast<size_t>( result ) != physicalPageSize )\n   {\n      throw E57_EXCEPTION2( ErrorWriteFailed", "   if ( result == 0 )\n   {\n      throw E57_EXCEPTION2( ErrorWriteFailed"))
bug('P03', 'seek unchecked', (CF, "   if ( result < 0 )\n   {\n      throw E57_EXCEPTION2( ErrorSeekFailed,\n                            \"fileName=\"", "   if ( result < -1 )\n   {\n      throw E57_EXCEPTION2( ErrorSeekFailed,\n                            \"fileName=\""))
bug('P03', 'close unchecked', (CF, "      if ( result < 0 )\n      {\n         throw E57_EXCEPTION2( ErrorCloseFailed", "      if ( result < 0 && !readOnly_ )\n      {\n         throw E57_EXCEPTION2( ErrorCloseFailed"))
bug('P03', 'open unchecked', (CF, "   if ( fd < 0 )\n", "   if ( fd < 0 && ( flags & O_CREAT ) )\n"))
bug('P03', 'view seek ignored', (CF, "      if ( bufView_->seek( uoffset, whence ) )\n      {\n         return bufView_->pos();\n      }\n", "      bufView_->seek( uoffset, whence );\n      if ( bufView_->pos() != 0 || offset == 0 )\n      {\n         return bufView_->pos();\n      }\n"))
same('', 'write check reversed', (CF, "   if ( result < 0 || static_cast<size_t>( result ) != physicalPageSize )\n   {\n      throw E57_EXCEPTION2( ErrorWriteFailed", "   const bool complete = ( result >= 0 ) && ( static_cast<size_t>( result ) == physicalPageSize );\n   if ( !complete )\n   {\n      throw E57_EXCEPTION2( ErrorWriteFailed"))
same('', 'signed compare', (CF, "   if ( result < 0 || static_cast<size_t>( result ) != physicalPageSize )\n   {\n      throw E57_EXCEPTION2( ErrorReadFailed", "   if ( result != static_cast<ssize_t>( physicalPageSize ) )\n   {\n      throw E57_EXCEPTION2( ErrorReadFailed"))
# ---- P05
bug('P05', 'open rdwr', (CF, "constexpr int readFlags = O_RDONLY | O_BINARY;", "constexpr int readFlags = O_RDWR | O_BINARY;"))
bug('P05', 'open creat', (CF, "constexpr int readFlags = O_RDONLY | O_BINARY;", "constexpr int readFlags = O_RDONLY | O_CREAT | O_BINARY;"))
bug('P05', 'readonly late', (CF, "         readOnly_ = true;\n\n         try", "         readOnly_ = ( policy != ChecksumPolicy::ChecksumNone );\n\n         try"))
bug('P05', 'write unguarded', (CF, "   if ( readOnly_ )\n   {\n      throw E57_EXCEPTION2( ErrorFileReadOnly, \"fileName=\" + fileName_ );\n   }\n\n   uint64_t end", "   uint64_t end"))
bug('P05', 'extend unguarded', (CF, "   if ( readOnly_ )\n   {\n      throw E57_EXCEPTION2( ErrorFileReadOnly, \"fileName=\" + fileName_ );\n   }\n\n   uint64_t newLogicalLength", "   uint64_t newLogicalLength"))
bug('P05', 'cancel unlinks', ('src/ImageFileImpl.cpp', "      if ( isWriter_ )\n      {\n         file_->unlink();", "      if ( isWriter_ || file_->length() == 0 )\n      {\n         file_->unlink();"))
bug('P05', 'dtor cancel', ('src/ImageFileImpl.cpp', "      if ( isWriter_ )\n      {\n         file_->unlink();\n      }\n      else\n      {\n         file_->close();\n      }", "      file_->unlink();"))
bug('P05', 'mode', ('src/ImageFileImpl.cpp', "      isWriter_ = ( mode == \"w\" );", "      isWriter_ = ( mode != \"r\" ) || fileName.empty();"))
bug('P05', 'blob write ro', ('src/BlobNodeImpl.cpp', "         throw E57_EXCEPTION2( ErrorFileReadOnly,", "         throw E57_EXCEPTION2( ErrorBadAPIArgument,"))

# ---- P09
WI, RI, NI, II = 'src/CompressedVectorWriterImpl.cpp', 'src/CompressedVectorReaderImpl.cpp', 'src/CompressedVectorNodeImpl.cpp', 'src/ImageFileImpl.cpp'
bug('P09', 'writer with reader open', (NI, "      if ( destImageFile->readerCount() > 0 )\n", "      if ( destImageFile->readerCount() > 1 )\n"))
bug('P09', 'two writers', (NI, "      if ( destImageFile->writerCount() > 0 )\n", "      if ( destImageFile->writerCount() > 0 && !sbufs.empty() && !isAttached() )\n"))
bug('P09', 'count before checks', (WI, "      isOpen_ = true;\n   }\n", "      isOpen_ = true;\n      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );\n   }\n"))
bug('P09', 'count early', (RI, "      // Get how many records are actually defined\n", "      ImageFileImplSharedPtr( cVector_->destImageFile_ )->incrReaderCount();\n"), (RI, "      imf->incrReaderCount();\n", ""))
bug('P09', 'close late decrement', (WI, "      imf->decrWriterCount();\n\n      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );\n", "      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );\n      imf->decrWriterCount();\n"))
bug('P09', 'dtor no close', (RI, "      if ( isOpen_ )\n      {\n         try", "      if ( isOpen_ && recordCount_ > 0 )\n      {\n         try"))
bug('P09', 'reader read closed', (RI, "      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );\n      checkReaderOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );\n\n      // Rewind", "      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );\n\n      // Rewind"))
bug('P09', 'decr wrong', (II, "      writerCount_--;", "      if ( writerCount_ > 1 ) writerCount_--;"))
same('P09 P10 P08', 'writer early return', (WI, "         if ( isOpen_ )\n         {\n            close();\n         }\n", "         close();\n"))
same('P09 P08', 'count order', (WI, "      // Set closed before do anything, so if get fault and start unwinding, don't\n      // try to close again.\n      isOpen_ = false;\n\n      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );\n\n      // Before anything that can throw, decrement writer count\n      imf->decrWriterCount();\n", "      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );\n      isOpen_ = false;\n      imf->decrWriterCount();\n"))
same('P09 P08', 'exclusion merged', (NI, "      if ( destImageFile->writerCount() > 0 )\n", "      const bool busy = ( 0 < destImageFile->writerCount() );\n      if ( busy )\n"))
# ---- P10
bug('P10', 'cv writer no try', (WI, "      try\n      {\n         if ( isOpen_ )\n         {\n            close();\n         }\n      }\n      catch ( ... )\n      {\n         //??? report?\n      }\n", "      if ( isOpen_ )\n      {\n         close();\n      }\n"))
bug('P10', 'catch only e57', (CF, "   try\n   {\n      close(); //??? what if already closed?\n   }\n   catch ( ... )", "   try\n   {\n      close();\n   }\n   catch ( const std::bad_alloc & )"))
bug('P10', 'image cancel outside', (II, "         cancel();\n      }\n      catch ( ... )\n      {\n      };\n", "         if ( isWriter_ ) cancel();\n      }\n      catch ( ... )\n      {\n      };\n      cancel();\n"))
bug('P10', 'rethrow', ('src/Packet.cpp', "      cache_->unlock( cacheIndex_ );\n   }\n   catch ( ... )\n   {\n", "      cache_->unlock( cacheIndex_ );\n   }\n   catch ( ... )\n   {\n      if ( cacheIndex_ > 100 ) throw;\n"))
same('', 'dtor helper', (CF, "CheckedFile::~CheckedFile()\n{\n   try\n   {\n      close(); //??? what if already closed?\n   }\n   catch ( ... )\n   {\n      //??? report?\n   }\n}", "static void closeQuietly( CheckedFile &f )\n{\n   try\n   {\n      f.close();\n   }\n   catch ( ... )\n   {\n   }\n}\n\nCheckedFile::~CheckedFile()\n{\n   closeQuietly( *this );\n}"))
# ---- P06
HW = "         // Write header at beginning of file\n         file_->seek( 0 );\n         file_->write( reinterpret_cast<char *>( &header ), sizeof( header ) );\n"
bug('P06', 'header at open', (II, "            root_->setAttachedRecursive();\n\n            unusedLogicalStart_ = sizeof( E57FileHeader );", "            root_->setAttachedRecursive();\n            E57FileHeader h;\n            file_->seek( 0 );\n            file_->write( reinterpret_cast<char *>( &h ), sizeof( h ) );\n            unusedLogicalStart_ = sizeof( E57FileHeader );"))
bug('P06', 'length before padding', (II, "         // Pad XML section so length is multiple of 4\n", "         const uint64_t xmlEnd = file_->position( CheckedFile::Logical );\n"), (II, "         xmlLogicalLength_ = file_->position( CheckedFile::Logical ) - xmlLogicalOffset_;\n", "         xmlLogicalLength_ = xmlEnd - xmlLogicalOffset_;\n"))
bug('P06', 'file length early', (II, "         *file_ << \"<?xml version=", "         const uint64_t fileLen = file_->length( CheckedFile::Physical );\n         *file_ << \"<?xml version="), (II, "header.filePhysicalLength = file_->length( CheckedFile::Physical );", "header.filePhysicalLength = fileLen;"))
bug('P06', 'file length logical', (II, "header.filePhysicalLength = file_->length( CheckedFile::Physical );", "header.filePhysicalLength = file_->length();"))
bug('P06', 'xml offset logical', (II, "header.xmlPhysicalOffset = xmlPhysicalOffset;", "header.xmlPhysicalOffset = xmlLogicalOffset_;"))
bug('P06', 'offset after prolog', (II, "         uint64_t xmlPhysicalOffset = file_->position( CheckedFile::Physical );\n", ""), (II, "         //??? need to add name space", "         uint64_t xmlPhysicalOffset = file_->position( CheckedFile::Physical );\n         //??? need to add name space"))
bug('P06', 'no file close', (II, HW + "\n         file_->close();\n", HW))
bug('P06', 'cancel keeps', (II, "         file_->unlink();\n      }\n      else\n      {\n         file_->close();\n      }\n", "         if ( xmlLogicalLength_ == 0 && writerCount_ == 0 )\n         {\n            file_->unlink();\n         }\n         else\n         {\n            file_->close();\n         }\n      }\n      else\n      {\n         file_->close();\n      }\n"))
bug('P06', 'dtor closes', (II, "         cancel();\n      }\n      catch ( ... )", "         close();\n      }\n      catch ( ... )"))
bug('P06', 'unlink only close', (CF, "   int result = std::remove( fileName_.c_str() );", "   int result = logicalLength_ > 0 ? 0 : std::remove( fileName_.c_str() );"))
bug('P06', 'section at 0', (II, "            unusedLogicalStart_ = sizeof( E57FileHeader );\n            xmlLogicalOffset_ = 0;", "            unusedLogicalStart_ = 0;\n            xmlLogicalOffset_ = 0;"))
bug('P06', 'page size', (II, "header.pageSize = CheckedFile::physicalPageSize;", "header.pageSize = CheckedFile::logicalPageSize;"))
same('P06 P05 P08 P01', 'close helper', (II, "   void ImageFileImpl::close()\n", "   static void writeHeader( CheckedFile *cf, uint64_t xmlStart, uint64_t xmlLen )\n   {\n      E57FileHeader h;\n      h.pageSize = CheckedFile::physicalPageSize;\n      memcpy( &h.fileSignature, \"ASTM-E57\", 8 );\n      h.majorVersion = E57_FORMAT_MAJOR;\n      h.minorVersion = E57_FORMAT_MINOR;\n      h.xmlLogicalLength = xmlLen;\n      h.xmlPhysicalOffset = CheckedFile::logicalToPhysical( xmlStart );\n      h.filePhysicalLength = cf->length( CheckedFile::Physical );\n      cf->seek( 0, CheckedFile::Physical );\n      cf->write( reinterpret_cast<const char *>( &h ), sizeof( E57FileHeader ) );\n   }\n\n   void ImageFileImpl::close()\n"),
     (II, HW, "         writeHeader( file_, xmlLogicalOffset_, file_->position() - xmlLogicalOffset_ );\n"))
same('P06 P05', 'cancel inverted', (II, "      if ( isWriter_ )\n      {\n         file_->unlink();\n      }\n      else\n      {\n         file_->close();\n      }\n", "      if ( !isWriter_ )\n      {\n         file_->close();\n      }\n      else\n      {\n         file_->unlink();\n      }\n"))
same('P06 P05', 'cancel guard', (II, "      // If file already closed, have nothing to do\n      if ( file_ == nullptr )\n      {\n         return;\n      }\n\n      // Close the file and ulink", "      if ( !isOpen() )\n      {\n         return;\n      }\n\n      // Close the file and ulink"))

# ---- P08, P11, P13, P14
NO = 'src/NodeImpl.cpp'
SN = 'src/StructureNodeImpl.cpp'
VN = 'src/VectorNodeImpl.cpp'
CV = 'src/CompressedVectorNodeImpl.cpp'
IN = 'src/IntegerNodeImpl.cpp'
SI = 'src/ScaledIntegerNodeImpl.cpp'
FN = 'src/FloatNodeImpl.cpp'
XP = 'src/E57XmlParser.cpp'
OPEN = "checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );"
bug('P08', 'isRoot unchecked', (NO, "   " + OPEN + "\n\n   return parent_.expired();", "   return parent_.expired();"))
bug('P08', 'check ignores isOpen', (NO, "if ( !destImageFile || !destImageFile->isOpen() )", "if ( !destImageFile )"))
bug('P08', 'minimum unchecked', (IN, "   int64_t IntegerNodeImpl::minimum()\n   {\n      " + OPEN, "   int64_t IntegerNodeImpl::minimum()\n   {\n"))
bug('P08', 'checks after append', (SN, "void StructureNodeImpl::append( NodeImplSharedPtr ni )\n{", "void StructureNodeImpl::append( NodeImplSharedPtr ni )\n{\n   ni->setParent( shared_from_this(), \"0\" );"))
same('', 'open check as helper', (NO, "   if ( !destImageFile || !destImageFile->isOpen() )\n   {", "   const bool usable = destImageFile && destImageFile->isOpen();\n   if ( !usable )\n   {"))
same('', 'open check early return', (NO, "   if ( !destImageFile || !destImageFile->isOpen() )\n   {\n      throw", "   if ( destImageFile && destImageFile->isOpen() )\n   {\n      return;\n   }\n   {\n      throw"))
bug('P11', 'parent not checked', (NO, "if ( !parent_.expired() || isAttached_ )", "if ( isAttached_ )"))
bug('P11', 'attached not checked', (NO, "if ( !parent_.expired() || isAttached_ )", "if ( !parent_.expired() )"))
bug('P11', 'both required', (NO, "if ( !parent_.expired() || isAttached_ )", "if ( !parent_.expired() && isAttached_ )"))
bug('P11', 'image not compared in path set', (SN, "   if ( level == fields.size() - 1 )\n   {\n      // Verify that child is destined for same ImageFile as this is\n      ImageFileImplSharedPtr thisDest( destImageFile() );\n      ImageFileImplSharedPtr niDest( ni->destImageFile() );\n      if ( thisDest != niDest )", "   if ( level == fields.size() - 1 )\n   {\n      ImageFileImplSharedPtr thisDest( destImageFile() );\n      ImageFileImplSharedPtr niDest( ni->destImageFile() );\n      if ( thisDest->fileName() != niDest->fileName() )"))
bug('P11', 'image compared with itself', (SN, "ImageFileImplSharedPtr thisDest( destImageFile() );\n   ImageFileImplSharedPtr niDest( ni->destImageFile() );", "ImageFileImplSharedPtr thisDest( destImageFile() );\n   ImageFileImplSharedPtr niDest( destImageFile() );"))
bug('P11', 'parent set before image check', (SN, "   // Verify that child is destined for same ImageFile as this is\n   ImageFileImplSharedPtr thisDest( destImageFile() );\n", "   ni->setParent( shared_from_this(), toString( index64 ) );\n   ImageFileImplSharedPtr thisDest( destImageFile() );\n"), (SN, "   ni->setParent( shared_from_this(), elementName.str() );\n   children_.push_back( ni );", "   children_.push_back( ni );"))
bug('P11', 'replaces instead of set twice', (SN, "            // Enforce \"set once\" policy, don't allow reset\n            throw E57_EXCEPTION2( ErrorSetTwice, \"this->pathName=\" + this->pathName() +\n                                                    \" element=\" + fields[level] );", "            child = ni;\n            return;"))
bug('P11', 'name search skips first', (SN, "      if ( fields.at( level ) == child->elementName() )\n      {\n         if ( level", "      if ( &child != &children_.front() && fields.at( level ) == child->elementName() )\n      {\n         if ( level"))
bug('P11', 'no parent link', (SN, "      ni->setParent( shared_from_this(), fields.at( level ) );\n      children_.push_back( ni );", "      children_.push_back( ni );"))
bug('P11', 'prototype parent', (CV, "      if ( !prototype->isRoot() )", "      if ( !prototype->isRoot() && prototype->isAttached() )"))
bug('P11', 'codecs image', (CV, "if ( thisDest != codecsDest )", "if ( !codecsDest )"))
same('', 'prototype assigned early', (CV, "      // prototype can't have a parent (must be a root node)\n", "      prototype_ = prototype;\n"), (CV, "      // !!! check for incomplete CompressedVectors when closing file\n      prototype_ = prototype;", ""))
same('', 'same image helper', (SN, "void StructureNodeImpl::set( int64_t index64, NodeImplSharedPtr ni )\n{", "static void requireSameImage( NodeImpl &a, NodeImpl &b )\n{\n   const ImageFileImplSharedPtr x = a.destImageFile();\n   const ImageFileImplSharedPtr y = b.destImageFile();\n   if ( x == y )\n   {\n      return;\n   }\n   throw E57_EXCEPTION2( ErrorDifferentDestImageFile, x->fileName() + y->fileName() );\n}\n\nvoid StructureNodeImpl::set( int64_t index64, NodeImplSharedPtr ni )\n{"),
     (SN, "   ImageFileImplSharedPtr thisDest( destImageFile() );\n   ImageFileImplSharedPtr niDest( ni->destImageFile() );\n   if ( thisDest != niDest )\n   {\n      throw E57_EXCEPTION2( ErrorDifferentDestImageFile,\n                            \"this->destImageFile\" + thisDest->fileName() + \" ni->destImageFile\" +\n                               niDest->fileName() );\n   }\n", "   requireSameImage( *this, *ni );\n"))
same('', 'set search by index', (SN, "   for ( auto &child : children_ )\n   {\n      if ( fields.at( level ) == child->elementName() )\n      {\n         if ( level", "   for ( size_t k = 0; k < children_.size(); ++k )\n   {\n      const NodeImplSharedPtr child = children_[k];\n      if ( child->elementName() == fields.at( level ) )\n      {\n         if ( level"))
same('', 'adopt helper', (SN, "void StructureNodeImpl::append( NodeImplSharedPtr ni )\n{", "static void adopt( NodeImplSharedPtr parent, std::vector<NodeImplSharedPtr> &list, const NodeImplSharedPtr &ni, const ustring &name )\n{\n   ni->setParent( parent, name );\n   list.push_back( ni );\n}\n\nvoid StructureNodeImpl::append( NodeImplSharedPtr ni )\n{"))
same('', 'adopt helper used', (SN, "void StructureNodeImpl::set( int64_t index64, NodeImplSharedPtr ni )\n{", "static void adopt( NodeImplSharedPtr parent, std::vector<NodeImplSharedPtr> &list, const NodeImplSharedPtr &ni, const ustring &name )\n{\n   ni->setParent( parent, name );\n   list.push_back( ni );\n}\n\nvoid StructureNodeImpl::set( int64_t index64, NodeImplSharedPtr ni )\n{"),
     (SN, "   ni->setParent( shared_from_this(), elementName.str() );\n   children_.push_back( ni );", "   adopt( shared_from_this(), children_, ni, elementName.str() );"),
     (SN, "      ni->setParent( shared_from_this(), fields.at( level ) );\n      children_.push_back( ni );", "      adopt( shared_from_this(), children_, ni, fields.at( level ) );"))
same('', 'emplace back', (SN, "      ni->setParent( shared_from_this(), fields.at( level ) );\n      children_.push_back( ni );", "      const ustring &leaf = fields.at( level );\n      ni->setParent( shared_from_this(), leaf );\n      children_.emplace_back( ni );"))
same('', 'has parent flipped', (NO, "if ( !parent_.expired() || isAttached_ )", "const bool free = !isAttached_ && parent_.expired();\n   if ( !free )"))
bug('P13', 'integer strict', (IN, "if ( value_ < minimum_ || value_ > maximum_ )", "if ( value_ < minimum_ && value_ > maximum_ )"))
bug('P13', 'integer lower only', (IN, "if ( value_ < minimum_ || value_ > maximum_ )", "if ( value_ < minimum_ )"))
bug('P13', 'integer boundary refused', (IN, "if ( value_ < minimum_ || value_ > maximum_ )", "if ( value_ < minimum_ || value_ >= maximum_ )"))
bug('P13', 'scaled int not validated', ('src/ScaledIntegerNode.cpp', "   impl_->validateValue();\n}\n\nScaledIntegerNode::ScaledIntegerNode( const ImageFile &destImageFile, int rawValue,", "}\n\nScaledIntegerNode::ScaledIntegerNode( const ImageFile &destImageFile, int rawValue,"))
bug('P13', 'float off by', (FN, "maximum_ )\n", "maximum_ + 1 )\n"))
bug('P13', 'parser integer', (XP, "            i_ni->validateValue();", ""))
same('', 'integer in range', (IN, "      if ( value_ < minimum_ || value_ > maximum_ )\n      {", "      const bool inside = minimum_ <= value_ && value_ <= maximum_;\n      if ( !inside )\n      {"))
same('', 'integer validated by helper', (IN, "      if ( value_ < minimum_ || value_ > maximum_ )\n      {", "      if ( std::min( value_, maximum_ ) != value_ || std::max( value_, minimum_ ) != value_ )\n      {"))
bug('P14', 'integer downcast', ('src/IntegerNode.cpp', "if ( n.type() != TypeInteger )", "if ( n.type() == TypeString )"))
bug('P14', 'vector equals', (VN, "      if ( ni->type() != TypeVector )\n", "      if ( ni->type() != TypeVector && ni->type() != TypeStructure )\n"))
bug('P14', 'structure type', ('src/ScaledIntegerNodeImpl.h', "return TypeScaledInteger;", "return TypeInteger;"))
bug('P14', 'constrained cast', (NO, "         case TypeVector:\n         {", "         case TypeStructure:\n         case TypeVector:\n         {"))
same('', 'downcast by positive test', ('src/IntegerNode.cpp', "   if ( n.type() != TypeInteger )\n   {\n      throw E57_EXCEPTION2( ErrorBadNodeDowncast, \"nodeType=\" + toString( n.type() ) );\n   }\n\n   // Set our shared_ptr to the downcast shared_ptr\n   impl_ = std::static_pointer_cast<IntegerNodeImpl>( n.impl() );", "   const NodeType kind = n.type();\n   if ( kind == TypeInteger )\n   {\n      impl_ = std::static_pointer_cast<IntegerNodeImpl>( n.impl() );\n      return;\n   }\n   throw E57_EXCEPTION2( ErrorBadNodeDowncast, \"nodeType=\" + toString( kind ) );"))

# ---- P12, P31
bug('P12', 'minimum ignored', (IN, "      if ( minimum_ != ii->minimum_ )", "      if ( minimum_ < ii->minimum_ )"))
bug('P12', 'maximum ignored', (SI, "      if ( maximum_ != ii->maximum_ )", "      if ( maximum_ != maximum_ )"))
bug('P12', 'offset tolerance', (SI, "      if ( offset_ != ii->offset_ )", "      if ( std::abs( offset_ - ii->offset_ ) > 1e-12 )"))
bug('P12', 'precision', (FN, "precision_ != fi->precision_", "precision_ > fi->precision_"))
bug('P12', 'value matters', (IN, "      // ignore value_, doesn't have to match", "      if ( value_ != ii->value_ )\n      {\n         return false;\n      }\n"))
bug('P12', 'last child skipped', (VN, "for ( unsigned i = 0; i < childCount(); i++ )", "for ( unsigned i = 0; i + 1 < childCount(); i++ )"))
bug('P12', 'structure prefix', (SN, "   if ( childCount() != si->childCount() )", "   if ( childCount() > si->childCount() )"))
bug('P12', 'structure wrong child', (SN, "children_.at( i )->isTypeEquivalent( si->lookup( myChildsFieldName ) )", "children_.at( i )->isTypeEquivalent( si->children_.at( i ) )"))
bug('P12', 'missing name', (SN, "         if ( !si->isDefined( myChildsFieldName ) )\n         {\n            return ( false );\n         }\n         if ( !children_.at( i )->isTypeEquivalent( si->lookup( myChildsFieldName ) ) )", "         if ( si->isDefined( myChildsFieldName ) && !children_.at( i )->isTypeEquivalent( si->lookup( myChildsFieldName ) ) )"))
bug('P12', 'codecs ignored', (CV, "      if ( !codecs_->isTypeEquivalent( cvi->codecs_ ) )", "      if ( !codecs_->isTypeEquivalent( codecs_ ) )"))
bug('P12', 'hetero flag', (VN, "      if ( allowHeteroChildren_ != ai->allowHeteroChildren_ )", "      if ( allowHeteroChildren_ && !ai->allowHeteroChildren_ )"))
bug('P12', 'blob', ('src/BlobNodeImpl.cpp', "if ( blobLogicalLength_ != bi->blobLogicalLength_ )", "if ( blobLogicalLength_ < bi->blobLogicalLength_ )"))
bug('P12', 'kind only', (VN, "            if ( !child->isTypeEquivalent( ni ) )", "            if ( child->type() != ni->type() )"))
bug('P12', 'inverted', (VN, "      if ( !allowHeteroChildren_ )\n", "      if ( allowHeteroChildren_ )\n"))
bug('P12', 'second child', (VN, "         for ( auto &child : children_ )\n         {\n            if ( !child->isTypeEquivalent( ni ) )", "         for ( auto &child : children_ )\n         {\n            if ( children_.size() > 1 && !child->isTypeEquivalent( ni ) )"))
bug('P12', 'constrained', (NO, "if ( !ai->allowHeteroChildren() && ai->childCount() > 1 )", "if ( !ai->allowHeteroChildren() && ai->childCount() > 2 )"))
bug('P12', 'constrained parent only', (NO, "   while ( !p->isRoot() )\n   {\n      // We have a parent", "   if ( !p->isRoot() )\n   {\n      // We have a parent"))
bug('P12', 'path set unchecked', (SN, "   // If this struct is type constrained, can't add new child\n   if ( isTypeConstrained() )\n   {\n      throw E57_EXCEPTION2( ErrorHomogeneousViolation, \"this->pathName=\" + this->pathName() );\n   }\n\n   // A vector", "   // A vector"))
same('', 'integer equivalence in one', (IN, "      // minimum must match\n      if ( minimum_ != ii->minimum_ )\n      {\n         return ( false );\n      }\n\n      // maximum must match\n      if ( maximum_ != ii->maximum_ )\n      {\n         return ( false );\n      }\n", "      if ( !( minimum_ == ii->minimum_ && ii->maximum_ == maximum_ ) )\n      {\n         return false;\n      }\n"))
same('', 'vector equivalence iterators', (VN, "      for ( unsigned i = 0; i < childCount(); i++ )\n      {\n         if ( !children_.at( i )->isTypeEquivalent( ai->children_.at( i ) ) )\n", "      auto theirs = ai->children_.begin();\n      for ( const auto &mine : children_ )\n      {\n         if ( !mine->isTypeEquivalent( *theirs++ ) )\n"))
same('', 'homogeneity any_of', (VN, "         for ( auto &child : children_ )\n         {\n            if ( !child->isTypeEquivalent( ni ) )\n            {\n               throw E57_EXCEPTION2( ErrorHomogeneousViolation,\n                                     \"this->pathName=\" + this->pathName() );\n            }\n         }", "         const bool odd = std::any_of( children_.begin(), children_.end(), [&ni]( const NodeImplSharedPtr &x ) { return !x->isTypeEquivalent( ni ); } );\n         if ( odd )\n         {\n            throw E57_EXCEPTION2( ErrorHomogeneousViolation, \"this->pathName=\" + this->pathName() );\n         }"), (VN, "#include \"VectorNodeImpl.h\"", "#include <algorithm>\n#include \"VectorNodeImpl.h\""))
same('', 'homogeneity first only', (VN, "         for ( auto &child : children_ )\n         {\n            if ( !child->isTypeEquivalent( ni ) )\n", "         if ( !children_.empty() )\n         {\n            if ( !children_.front()->isTypeEquivalent( ni ) )\n"))
II2 = 'src/ImageFileImpl.cpp'
bug('P31', 'negative index', (SN, "   if ( index < 0 || index >= static_cast<int64_t>( children_.size() ) )", "   if ( index >= static_cast<int64_t>( children_.size() ) )"))
bug('P31', 'index end', (SN, "   if ( index < 0 || index >= static_cast<int64_t>( children_.size() ) )", "   if ( index < 0 || index > static_cast<int64_t>( children_.size() ) )"))
bug('P31', 'wrong child', (SN, "   return ( children_.at( static_cast<unsigned>( index ) ) );", "   return ( children_.at( children_.size() - 1 - static_cast<unsigned>( index ) ) );"))
bug('P31', 'lookup returns partial', (SN, "      if ( fields.size() == 1 )\n      {\n         return ( children_.at( i ) );\n      }\n", "      if ( fields.size() == 1 || children_.at( i )->type() != TypeStructure )\n      {\n         return ( children_.at( i ) );\n      }\n"))
bug('P31', 'absolute from here', (SN, "   if ( isRelative || isRoot() )", "   if ( isRelative || isRoot() || !fields.empty() )"))
bug('P31', 'undefined not reported', (SN, "   if ( !ni )\n   {\n      throw E57_EXCEPTION2( ErrorPathUndefined,", "   if ( !ni && children_.empty() )\n   {\n      throw E57_EXCEPTION2( ErrorPathUndefined,"))
bug('P31', 'prefix dup', (II2, "      if ( extensionsLookupPrefix( prefix, dummy ) )", "      if ( extensionsLookupPrefix( prefix, dummy ) && dummy == uri )"))
bug('P31', 'uri dup', (II2, "      if ( extensionsLookupUri( uri, dummy ) )", "      if ( extensionsLookupUri( prefix, dummy ) )"))
bug('P31', 'lookup uri', (II2, "            uri = it->uri;", "            uri = it->prefix;"))
bug('P31', 'number then letters', (II2, "            if ( c < '0' || c > '9' )", "            if ( c < '0' || c > 'z' )"))
bug('P31', 'first char digit range', (II2, "( 'A' <= c && c <= 'Z' ) || c == '_' ) )\n      {", "( 'A' <= c && c <= 'Z' ) || c == '_' || c == '-' ) )\n      {"))
bug('P31', 'upper case limit', (II2, "if ( c < 128 && !( ( 'a' <= c && c <= 'z' ) || ( 'A' <= c && c <= 'Z' ) || c == '_' ||", "if ( c < 128 && !( ( 'A' <= c && c <= 'z' ) || c == '_' ||"))
bug('P31', 'loop skips last', (II2, "      for ( size_t i = 1; i < len; i++ )\n      {\n         c = elementName[i];\n\n         if ( c < 128", "      for ( size_t i = 1; i + 1 < len; i++ )\n      {\n         c = elementName[i];\n\n         if ( c < 128"))
bug('P31', 'two colons', (II2, "         if ( elementName.find_first_of( ':', found + 1 ) != std::string::npos )", "         if ( elementName.find_first_of( ':', found + 2 ) == found + 1 )"))
bug('P31', 'empty local part', (II2, "if ( prefix.length() == 0 || localPart.length() == 0 )", "if ( prefix.length() == 0 )"))
bug('P31', 'unregistered', (II2, "if ( prefix.length() > 0 && !extensionsLookupPrefix( prefix, uri ) )", "if ( prefix.length() > 1 && !extensionsLookupPrefix( prefix, uri ) )"))
bug('P31', 'trailing slash', (II2, "         if ( slash == pathName.size() - 1 )\n", "         if ( slash == pathName.size() )\n"))
bug('P31', 'empty path', (II2, "      if ( isRelative && fields.empty() )", "      if ( isRelative && fields.size() == 1 && fields[0].empty() )"))
bug('P31', 'utf8 refused', (II2, "      if ( c < 128 && !( ( 'a' <= c && c <= 'z' ) || ( 'A' <= c && c <= 'Z' ) || c == '_' ) )", "      if ( !( ( 'a' <= c && c <= 'z' ) || ( 'A' <= c && c <= 'Z' ) || c == '_' ) )"))
bug('P31', 'only first field checked', (II2, "         checkElementNameLegal( elementName ); // throws if elementName bad\n", "         if ( fields.empty() )\n            checkElementNameLegal( elementName );\n"))
same('', 'char class helper', (II2, "   void ImageFileImpl::elementNameParse( const ustring &elementName, ustring &prefix,", "   static bool isLetter( unsigned char c )\n   {\n      return ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ) || c == '_';\n   }\n\n   void ImageFileImpl::elementNameParse( const ustring &elementName, ustring &prefix,"),
     (II2, "      if ( c < 128 && !( ( 'a' <= c && c <= 'z' ) || ( 'A' <= c && c <= 'Z' ) || c == '_' ) )", "      if ( c <= 127 && !isLetter( c ) )"),
     (II2, "         if ( c < 128 && !( ( 'a' <= c && c <= 'z' ) || ( 'A' <= c && c <= 'Z' ) || c == '_' ||\n                            c == ':'", "         if ( c < 128 && !( isLetter( c ) ||\n                            c == ':'"))
same('', 'colon by find', (II2, "elementName.find_first_of( ':' );", "elementName.find( ':' );"), (II2, "elementName.find_first_of( ':', found + 1 ) != std::string::npos", "elementName.rfind( ':' ) != found"))
same('', 'parse by iterator', (II2, "      for ( size_t i = 1; i < len; i++ )\n      {\n         c = elementName[i];\n\n         if ( c < 128", "      for ( size_t i = len - 1; i > 0; --i )\n      {\n         c = elementName.at( i );\n\n         if ( c < 128"))
same('', 'lookup range', (II2, "      std::vector<NameSpace>::const_iterator it;\n\n      for ( it = nameSpaces_.begin(); it < nameSpaces_.end(); ++it )\n      {\n         if ( it->prefix == prefix )\n         {\n            uri = it->uri;\n            return true;\n         }\n      }\n", "      for ( const NameSpace &ns : nameSpaces_ )\n      {\n         if ( prefix != ns.prefix )\n         {\n            continue;\n         }\n         uri = ns.uri;\n         return true;\n      }\n"))
same('', 'lookup find_if', (SN, "      unsigned i;\n      for ( i = 0; i < children_.size(); i++ )\n      {\n         if ( fields.at( 0 ) == children_.at( i )->elementName() )\n         {\n            break;\n         }\n      }\n      if ( i == children_.size() )\n      {\n         return {}; // empty pointer\n      }\n", "      const ustring &first = fields.at( 0 );\n      const auto it = std::find_if( children_.begin(), children_.end(), [&]( const NodeImplSharedPtr &x ) { return x->elementName() == first; } );\n      if ( it == children_.end() )\n      {\n         return {};\n      }\n      const size_t i = static_cast<size_t>( it - children_.begin() );\n"), (SN, "#include \"StructureNodeImpl.h\"", "#include <algorithm>\n#include \"StructureNodeImpl.h\""))
same('', 'get unsigned', (SN, "   if ( index < 0 || index >= static_cast<int64_t>( children_.size() ) )", "   if ( static_cast<uint64_t>( index ) >= children_.size() )"))

EX = 'src/E57Exception.cpp'
bug('P29', 'two codes one text', (EX, 'return "lseek() failed (ErrorSeekFailed)";', 'return "write() failed (ErrorWriteFailed)";'))
bug('P29', 'code without text', (EX, "         case ErrorBadCodecs:\n            return \"bad codecs in CompressedVectorNode (ErrorBadCodecs)\";\n", ""))
bug('P29', 'fallthrough', (EX, "            return \"read() failed (ErrorReadFailed)\";\n", ""))
bug('P29', 'context dropped', ('include/E57Exception.h', "context_( std::move( context ) )", "context_( srcFileName )"))
bug('P29', 'code replaced', ('include/E57Exception.h', "errorCode_( ecode )", "errorCode_( ecode == ErrorXMLParser ? ErrorBadXMLFormat : ecode )"))
same('', 'if before switch', (EX, "      switch ( ecode )\n      {\n         case Success:\n            return \"operation was successful (Success)\";", "      if ( ecode == Success )\n      {\n         return \"operation was successful (Success)\";\n      }\n      switch ( ecode )\n      {"))
same('', 'text variable', (EX, "            return \"read() failed (ErrorReadFailed)\";\n", "         {\n            const std::string what( \"read() failed (ErrorReadFailed)\" );\n            return what;\n         }\n"))
bug('P30', 'isDefined swallows all', ('src/StructureNode.cpp', "      if ( e.errorCode() == ErrorPathNameExtensionNotRegistered )\n", "      if ( e.errorCode() != ErrorImageFileNotOpen )\n"))
bug('P30', 'open swallowed', (II, "         catch ( ... )\n         {\n            // Can't tell user, so just", "         catch ( ... )\n         {\n            // Can't tell user, so just") if False else ('src/E57XmlParser.cpp', "      throw E57_EXCEPTION2( ErrorXMLParserInit,\n                            \"parserMessage=\" + ustring( XMLString::transcode( ex.getMessage() ) ) );\n", "      (void)ex;\n"))
bug('P30', 'throws runtime error', (CF, "throw E57_EXCEPTION2( ErrorCloseFailed,\n                               \"fileName=\" + fileName_ + \" result=\" + toString( result ) );", "throw std::runtime_error( \"fileName=\" + fileName_ + \" result=\" + toString( result ) );"))
bug('P30', 'parse with stoll', ('src/E57XmlParser.cpp', "      return strtoll( inStr.c_str(), nullptr, 10 );", "      return std::stoll( inStr );"))
bug('P30', 'name query throws', (II, "      try\n      {\n         // Throws if elementName bad\n         elementNameParse( elementName, prefix, localPart );\n      }\n      catch ( E57Exception & /*ex*/ )\n      {\n         return false;\n      }\n", "      elementNameParse( elementName, prefix, localPart );\n"))
same('', 'rethrow', ('src/StructureNode.cpp', "      throw( e );\n", "      throw;\n"))
same('', 'handler helper', ('src/StructureNode.cpp', "      if ( e.errorCode() == ErrorPathNameExtensionNotRegistered )\n      {\n         return false;\n      }\n\n      throw( e );\n", "      const bool unregistered = ( ErrorPathNameExtensionNotRegistered == e.errorCode() );\n      if ( !unregistered )\n      {\n         throw;\n      }\n      return false;\n"))

BL = 'src/BlobNodeImpl.cpp'
bug('P32', 'blob start allowed past end', (BL, "   void BlobNodeImpl::read( uint8_t *buf, int64_t start, size_t count )\n   {\n      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );\n      if ( start < 0 || static_cast<uint64_t>( start ) > blobLogicalLength_ ||\n", "   void BlobNodeImpl::read( uint8_t *buf, int64_t start, size_t count )\n   {\n      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );\n      if ( start < 0 ||\n"))
bug('P32', 'blob section bound', (BL, "count > blobLogicalLength_ - static_cast<uint64_t>( start ) )", "count > binarySectionLogicalLength_ - static_cast<uint64_t>( start ) )"))
bug('P32', 'blob header skipped', (BL, "imf->file_->seek( binarySectionLogicalStart_ + sizeof( BlobSectionHeader ) + start );\n      imf->file_->write", "imf->file_->seek( binarySectionLogicalStart_ + start );\n      imf->file_->write"))
bug('P32', 'blob physical', (BL, "imf->file_->seek( binarySectionLogicalStart_ + sizeof( BlobSectionHeader ) + start );\n      imf->file_->read", "imf->file_->seek( binarySectionLogicalStart_ + sizeof( BlobSectionHeader ) + start, CheckedFile::Physical );\n      imf->file_->read"))
bug('P32', 'blob short count', (BL, "      imf->file_->write( reinterpret_cast<char *>( buf ),\n                         static_cast<size_t>( count ) );", "      imf->file_->write( reinterpret_cast<char *>( buf ),\n                         static_cast<uint32_t>( count ) );"))
bug('P32', 'blob reserved short', (BL, "binarySectionLogicalLength_ = sizeof( BlobSectionHeader ) + blobLogicalLength_;\n      unsigned", "binarySectionLogicalLength_ = blobLogicalLength_;\n      unsigned"))
bug('P32', 'blob negative length', (BL, "      if ( byteCount < 0 )\n", "      if ( byteCount < -1 )\n"))
same('', 'blob range helper', (BL, "   void BlobNodeImpl::read( uint8_t *buf, int64_t start, size_t count )\n   {\n      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );\n      if ( start < 0 || static_cast<uint64_t>( start ) > blobLogicalLength_ ||\n           count > blobLogicalLength_ - static_cast<uint64_t>( start ) )\n", "   static bool contains( uint64_t length, int64_t start, size_t count )\n   {\n      if ( start < 0 )\n      {\n         return false;\n      }\n      const auto first = static_cast<uint64_t>( start );\n      return first <= length && length - first >= count;\n   }\n\n   void BlobNodeImpl::read( uint8_t *buf, int64_t start, size_t count )\n   {\n      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );\n      if ( !contains( blobLogicalLength_, start, count ) )\n"))
same('', 'blob seek split', (BL, "imf->file_->seek( binarySectionLogicalStart_ + sizeof( BlobSectionHeader ) + start );\n      imf->file_->read", "const uint64_t data = sizeof( BlobSectionHeader ) + binarySectionLogicalStart_;\n      imf->file_->seek( start + data );\n      imf->file_->read"))
same('', 'blob rounding', (BL, "      unsigned remainder = binarySectionLogicalLength_ % 4;\n      if ( remainder > 0 )\n      {\n         binarySectionLogicalLength_ += 4 - remainder;\n      }\n", "      while ( binarySectionLogicalLength_ % 4 != 0 )\n      {\n         ++binarySectionLogicalLength_;\n      }\n"))
same('', 'blob rounding mask', (BL, "      unsigned remainder = binarySectionLogicalLength_ % 4;\n      if ( remainder > 0 )\n      {\n         binarySectionLogicalLength_ += 4 - remainder;\n      }\n", "      binarySectionLogicalLength_ = ( ( binarySectionLogicalLength_ + 3 ) / 4 ) * 4;\n"))
# ---- P20, P21
SD = 'src/SourceDestBufferImpl.cpp'
ROOM = "   if ( nextIndex_ >= capacity_ )\n   {\n      throw E57_EXCEPTION2( ErrorInternal, \"pathName=\" + pathName_ );\n   }\n"
bug('P20', 'off by one room', (SD, "float SourceDestBufferImpl::getNextFloat()\n{\n   /// don't checkImageFileOpen\n\n   /// Verify index is within bounds\n   if ( nextIndex_ >= capacity_ )", "float SourceDestBufferImpl::getNextFloat()\n{\n   if ( nextIndex_ > capacity_ )"))
bug('P20', 'stride from index', (SD, "   char *p = &base_[nextIndex_ * stride_];\n\n   double doubleRawValue", "   char *p = &base_[( nextIndex_ + 1 ) * stride_];\n\n   double doubleRawValue"))
bug('P20', 'wrong width', (SD, "         *reinterpret_cast<uint16_t *>( p ) = static_cast<uint16_t>( value );", "         *reinterpret_cast<uint32_t *>( p ) = static_cast<uint16_t>( value );"))
bug('P20', 'string no bound', (SD, "   /// Verify have room.\n" + ROOM, ""))
bug('P20', 'advance before fail', (SD, "   double scaledValue;\n   if (", "   nextIndex_++;\n   double scaledValue;\n   if ("), (SD, "         throw E57_EXCEPTION2( ErrorExpectingNumeric, \"pathName=\" + pathName_ );\n   }\n\n   nextIndex_++;\n}\n\nvoid SourceDestBufferImpl::setNextFloat", "         throw E57_EXCEPTION2( ErrorExpectingNumeric, \"pathName=\" + pathName_ );\n   }\n}\n\nvoid SourceDestBufferImpl::setNextFloat"))
bug('P20', 'stride of type ignored', (SD, "   stride_ = stride;\n", "   stride_ = sizeof( T );\n"))
bug('P20', 'rep swapped', (SD, "      memoryRepresentation_ = UInt16;", "      memoryRepresentation_ = Int32;"))
bug('P20', 'flags swapped', (SD, "doConversion_( doConversion ), doScaling_( doScaling )", "doConversion_( doScaling ), doScaling_( doConversion )"))
bug('P20', 'write over capacity', ('src/CompressedVectorWriterImpl.cpp', "if ( requestedRecordCount > sbufs_.at( 0 ).impl()->capacity() )", "if ( requestedRecordCount > sbufs_.at( 0 ).impl()->capacity() + 1 )"))
bug('P20', 'encoder one more', ('src/Encoder.cpp', "   for ( unsigned i = 0; i < recordCount; i++ )\n   {\n      int64_t nextInt64", "   for ( unsigned i = 0; i <= recordCount; i++ )\n   {\n      int64_t nextInt64"))
same('', 'room helper', (SD, "int64_t SourceDestBufferImpl::getNextInt64()\n{\n   /// don't checkImageFileOpen\n\n   /// Verify index is within bounds\n" + ROOM, "static void verifyRoom( size_t at, size_t capacity, const ustring &path )\n{\n   if ( at < capacity )\n   {\n      return;\n   }\n   throw E57_EXCEPTION2( ErrorInternal, \"pathName=\" + path );\n}\n\nint64_t SourceDestBufferImpl::getNextInt64()\n{\n   verifyRoom( nextIndex_, capacity_, pathName_ );\n"))
same('', 'pointer sum', (SD, "   char *p = &base_[nextIndex_ * stride_];\n   double value;", "   char *p = base_ + stride_ * nextIndex_;\n   double value;"))
same('', 'memcpy load', (SD, "         value = static_cast<int64_t>( *reinterpret_cast<int16_t *>( p ) );\n", "      {\n         int16_t raw = 0;\n         memcpy( &raw, p, sizeof( raw ) );\n         value = raw;\n      }\n"), (SD, "#include \"StringFunctions.h\"\n", "#include \"StringFunctions.h\"\n#include <cstring>\n"))
same('', 'memcpy store', (SD, "         *reinterpret_cast<uint16_t *>( p ) = static_cast<uint16_t>( value );", "      {\n         const auto raw = static_cast<uint16_t>( value );\n         memcpy( p, &raw, sizeof( raw ) );\n      }"), (SD, "#include \"StringFunctions.h\"\n", "#include \"StringFunctions.h\"\n#include <cstring>\n"))
same('', 'string get split', (SD, "   return ( ( *ustrings_ )[nextIndex_++] );", "   const ustring &s = ustrings_->at( nextIndex_ );\n   nextIndex_ += 1;\n   return s;"))
same('', 'narrow template', (SD, "template <typename T> void SourceDestBufferImpl::setTypeInfo( T *base, size_t stride )\n{", "template <typename T> static void storeChecked( char *p, int64_t value, const ustring &path )\n{\n   if ( value < static_cast<int64_t>( std::numeric_limits<T>::min() ) || value > static_cast<int64_t>( std::numeric_limits<T>::max() ) )\n   {\n      throw E57_EXCEPTION2( ErrorValueNotRepresentable, \"pathName=\" + path + \" value=\" + toString( value ) );\n   }\n   *reinterpret_cast<T *>( p ) = static_cast<T>( value );\n}\n\ntemplate <typename T> void SourceDestBufferImpl::setTypeInfo( T *base, size_t stride )\n{"),
     (SD, "         if ( value < INT8_MIN || INT8_MAX < value )\n         {\n            throw E57_EXCEPTION2( ErrorValueNotRepresentable,\n                                  \"pathName=\" + pathName_ + \" value=\" + toString( value ) );\n         }\n         *reinterpret_cast<int8_t *>( p ) = static_cast<int8_t>( value );", "         storeChecked<int8_t>( p, value, pathName_ );"),
     (SD, "#include \"StringFunctions.h\"\n", "#include \"StringFunctions.h\"\n#include <limits>\n"))
bug('P21', 'narrow unchecked', (SD, "         if ( value < INT16_MIN || INT16_MAX < value )\n         {\n            throw E57_EXCEPTION2( ErrorValueNotRepresentable,\n                                  \"pathName=\" + pathName_ + \" value=\" + toString( value ) );\n         }\n         *reinterpret_cast<int16_t *>( p ) = static_cast<int16_t>( value );", "         *reinterpret_cast<int16_t *>( p ) = static_cast<int16_t>( value );"))
bug('P21', 'narrow limits wrong', (SD, "if ( value < UINT8_MIN || UINT8_MAX < value )", "if ( value < INT8_MIN || UINT8_MAX < value )"))
bug('P21', 'real to int64 limit', (SD, "if ( inValue < INT64_MIN || ( inValue >= ( static_cast<T>( INT64_MAX ) ) ) )", "if ( inValue < INT64_MIN || ( inValue > ( static_cast<T>( INT64_MAX ) ) ) )"))
bug('P21', 'real32 limit dropped', (SD, "            if ( inValue < FLOAT_MIN || FLOAT_MAX < inValue )\n            {\n               throw E57_EXCEPTION2( ErrorValueNotRepresentable,\n                                     \"pathName=\" + pathName_ + \" value=\" + toString( inValue ) );\n            }\n", ""))
bug('P21', 'conversion free', (SD, "      case UInt32:\n         if ( !doConversion_ )\n         {\n            throw E57_EXCEPTION2( ErrorConversionRequired, \"pathName=\" + pathName_ );\n         }\n         value = static_cast<float>", "      case UInt32:\n         value = static_cast<float>"))
bug('P21', 'truncate after check', (SD, "         *reinterpret_cast<uint32_t *>( p ) = static_cast<uint32_t>( value );", "         *reinterpret_cast<uint32_t *>( p ) = static_cast<uint16_t>( value );"))
bug('P21', 'wrong error', (SD, "   if ( memoryRepresentation_ != UString )\n   {\n      throw E57_EXCEPTION2( ErrorExpectingUString, \"pathName=\" + pathName_ );\n   }\n\n   /// Verify have room.", "   if ( memoryRepresentation_ != UString )\n   {\n      throw E57_EXCEPTION2( ErrorExpectingNumeric, \"pathName=\" + pathName_ );\n   }\n\n   /// Verify have room."))
bug('P21', 'scaled int cast early', (SD, "      scaledValue = floor( value * scale + offset + 0.5 );", "      scaledValue = static_cast<int32_t>( floor( value * scale + offset + 0.5 ) );"))
same('', 'scaled split', (SD, "      scaledValue = floor( value * scale + offset + 0.5 );", "      const double exact = value * scale + offset;\n      scaledValue = std::floor( exact + 0.5 );"))
same('', 'switch to if', (SD, "         if ( std::is_same<T, double>::value )\n         {\n            /// Does", "         if ( sizeof( T ) == sizeof( double ) )\n         {\n            /// Does"))
# ---- P33
CW, CR, NIM = 'src/CompressedVectorWriterImpl.cpp', 'src/CompressedVectorReaderImpl.cpp', 'src/NodeImpl.cpp'
bug('P33', 'capacity of neighbours', (NIM, "sdbufs.at( i ).impl()->capacity() != sdbufs.at( 0 ).impl()->capacity()", "i > 1 && sdbufs.at( i ).impl()->capacity() != sdbufs.at( 0 ).impl()->capacity()"))
bug('P33', 'smaller capacity ok', (NIM, "sdbufs.at( i ).impl()->capacity() != sdbufs.at( 0 ).impl()->capacity()", "sdbufs.at( i ).impl()->capacity() < sdbufs.at( 0 ).impl()->capacity()"))
bug('P33', 'duplicates pass', (NIM, "if ( !pathNames.insert( pathName ).second )", "if ( i > 1 && !pathNames.insert( pathName ).second )"))
bug('P33', 'undefined passes', (NIM, "      if ( !isDefined( pathName ) )\n", "      if ( allowMissing && !isDefined( pathName ) )\n"))
bug('P33', 'writer always may miss', (CW, "proto_->checkBuffers( sbufs, false );", "proto_->checkBuffers( sbufs, true );"))
bug('P33', 'stride not compared', (SD, "   if ( stride_ != newBuf->stride() )", "   if ( doScaling_ && stride_ != newBuf->stride() )"))
bug('P33', 'first only compared', (CR, "         for ( size_t i = 0; i < dbufs_.size(); i++ )\n         {\n            std::shared_ptr<SourceDestBufferImpl> oldBuf", "         for ( size_t i = 0; i < 1; i++ )\n         {\n            std::shared_ptr<SourceDestBufferImpl> oldBuf"))
bug('P33', 'kept late', (CR, "      dbufs_ = dbufs;\n", "      if ( dbufs_.empty() )\n      {\n         dbufs_ = dbufs;\n      }\n"))
bug('P33', 'decoder forgets', ('src/Decoder.cpp', "   destBuffer_ = dbufs.at( 0 ).impl();\n}\n\nsize_t ConstantIntegerDecoder", "   if ( !destBuffer_ )\n   {\n      destBuffer_ = dbufs.at( 0 ).impl();\n   }\n}\n\nsize_t ConstantIntegerDecoder"))
bug('P33', 'size not compared', (CR, "         if ( dbufs_.size() != dbufs.size() )", "         if ( dbufs_.size() > dbufs.size() )"))
same('', 'buffers ranged', (NIM, "   for ( unsigned i = 0; i < sdbufs.size(); i++ )\n   {\n      ustring pathName = sdbufs.at( i ).impl()->pathName();\n", "   const size_t count = sdbufs.size();\n   for ( size_t i = 0; i != count; ++i )\n   {\n      const auto &buffer = sdbufs[i];\n      const ustring pathName = buffer.pathName();\n"))
same('', 'buffers count', (NIM, "      if ( !pathNames.insert( pathName ).second )\n", "      const bool fresh = pathNames.count( pathName ) == 0;\n      pathNames.insert( pathName );\n      if ( !fresh )\n"))
same('', 'compat lambda', (SD, "   if ( stride_ != newBuf->stride() )\n", "   const bool sameStride = newBuf->stride() == stride_;\n   if ( !sameStride )\n"))
same('', 'compat order', (CR, "      // Check dbufs well formed: no dups, no extra, missing is ok\n      proto_->checkBuffers( dbufs, true );\n", ""), (CR, "      dbufs_ = dbufs;\n", "      proto_->checkBuffers( dbufs, true );\n\n      dbufs_ = dbufs;\n"))
same('', 'compat helper', (CR, "            std::shared_ptr<SourceDestBufferImpl> oldBuf = dbufs_[i].impl();\n            std::shared_ptr<SourceDestBufferImpl> newBuf = dbufs[i].impl();\n\n            // Throw exception if old and new not compatible\n            oldBuf->checkCompatible( newBuf );\n", "            dbufs_.at( i ).impl()->checkCompatible( dbufs.at( i ).impl() );\n"))
same('', 'leaf present', ('src/IntegerNodeImpl.cpp', "if ( pathNames.find( relativePathName( origin ) ) == pathNames.end() )", "const ustring name = relativePathName( origin );\n      if ( pathNames.count( name ) == 0 )"))
same('', 'lists swapped', (CW, "      sbufs_ = sbufs;\n", "      std::vector<SourceDestBuffer> accepted( sbufs );\n      sbufs_.swap( accepted );\n"))
# ---- P18, P19
EN, DE = 'src/Encoder.cpp', 'src/Decoder.cpp'
bug('P18', 'upper bound loose', (EN, "if ( rawValue < minimum_ || maximum_ < rawValue )", "if ( rawValue < minimum_ || maximum_ + 1 < rawValue )"))
bug('P18', 'bounds of plain only', (EN, "if ( rawValue < minimum_ || maximum_ < rawValue )", "if ( !isScaledInteger_ && ( rawValue < minimum_ || maximum_ < rawValue ) )"))
bug('P18', 'bounds clamp', (EN, "      // Enforce min/max specification on value\n      if (", "      // Enforce min/max specification on value\n      rawValue = std::max( rawValue, minimum_ );\n      if ("), (EN, "#include \"Encoder.h\"\n", "#include \"Encoder.h\"\n#include <algorithm>\n"))
bug('P18', 'bounds from first', (EN, "if ( rawValue < minimum_ || maximum_ < rawValue )", "if ( i == 0 && ( rawValue < minimum_ || maximum_ < rawValue ) )"))
bug('P18', 'constant above', (EN, "      if ( nextInt64 != minimum_ )", "      if ( nextInt64 < minimum_ )"))
bug('P18', 'bounds error', (EN, "throw E57_EXCEPTION2( ErrorValueOutOfBounds, \"nextInt64=\"", "throw E57_EXCEPTION2( ErrorValueNotRepresentable, \"nextInt64=\""))
bug('P18', 'upper strict', (EN, "if ( rawValue < minimum_ || maximum_ < rawValue )", "if ( rawValue < minimum_ || maximum_ <= rawValue )"))
bug('P18', 'scaled constant from bits', (EN, "new ConstantIntegerEncoder( true, bytestreamNumber, sbuf, sini->minimum(),", "new ConstantIntegerEncoder( true, bytestreamNumber, sbuf, sini->maximum() / 2,"))
bug('P19', 'word width', (DE, "         if ( bitsPerRecord <= 16 )", "         if ( bitsPerRecord < 16 )"))
bug('P19', 'mask short', (DE, "static_cast<RegisterT>( 1ULL << bitsPerRecord_ ) - 1;", "static_cast<RegisterT>( 1ULL << ( bitsPerRecord_ - 1 ) ) - 1;"))
bug('P19', 'mask 64', (EN, "   sourceBitMask_ = ( bitsPerRecord_ == 64 ) ? ~0 :", "   sourceBitMask_ = ( bitsPerRecord_ >= 63 ) ? 0x7FFFFFFFFFFFFFFFULL :"))
bug('P19', 'high shift', (DE, "w = ( high << ( RegisterBits - bitOffset ) ) | ( low >> bitOffset );", "w = ( high << ( bitsPerRecord_ - bitOffset ) ) | ( low >> bitOffset );"))
bug('P19', 'minimum twice', (DE, "int64_t value = minimum_ + static_cast<uint64_t>( w );", "int64_t value = ( isScaledInteger_ ? 0 : minimum_ ) + static_cast<uint64_t>( w );"))
bug('P19', 'carry lost', (EN, "static_cast<RegisterT>( uValue ) >> ( 8 * sizeof( RegisterT ) - registerBitsUsed_ );", "static_cast<RegisterT>( uValue ) >> ( 8 * sizeof( RegisterT ) - bitsPerRecord_ );"))
bug('P19', 'log2 step', ('src/ImageFileImpl.cpp', "      if ( stateCountMinus1 & 0xF0LL )", "      if ( stateCountMinus1 & 0xE0LL )"))
bug('P19', 'precision swapped', (DE, "BitpackDecoder( bytestreamNumber, dbuf,\n                   ( precision == PrecisionSingle ) ? sizeof( float ) : sizeof( double ),", "BitpackDecoder( bytestreamNumber, dbuf,\n                   sizeof( double ),"))
bug('P19', 'long prefix', (EN, "         if ( len <= 127 )", "         if ( len <= 128 )"))
bug('P19', 'prefix byte', (DE, "static_cast<uint64_t>( prefixBytes_[1] ) << ( 1 * 8 - 1 )", "static_cast<uint64_t>( prefixBytes_[1] ) << ( 1 * 8 )"))
bug('P19', 'scale dropped', (DE, "destBuffer_->setNextInt64( value, scale_, offset_ );", "destBuffer_->setNextInt64( value, scale_, 0.0 );"))
bug('P19', 'constant maximum', (DE, "         destBuffer_->setNextInt64( minimum_ );", "         destBuffer_->setNextInt64( 0 );"))
same('', 'bounds inside', (EN, "      if ( rawValue < minimum_ || maximum_ < rawValue )", "      const bool inside = minimum_ <= rawValue && rawValue <= maximum_;\n      if ( !inside )"))
same('', 'mask expression', (DE, "   destBitMask_ =\n      ( bitsPerRecord_ == 64 ) ? ~0 : static_cast<RegisterT>( 1ULL << bitsPerRecord_ ) - 1;", "   destBitMask_ = static_cast<RegisterT>( ~0ULL >> ( 64 - bitsPerRecord_ ) );"))
same('', 'unpack simple', (DE, "      if ( bitOffset == 0 )\n      {\n         // The left shift (used below) is not defined if shift is >= size of\n         // word\n         w = low;\n      }\n", "      if ( bitOffset == 0 )\n      {\n         w = inp[wordPosition];\n      }\n"))
same('', 'log2 loop', ('src/ImageFileImpl.cpp', "      if ( stateCountMinus1 & 0xFFFFFFFF00000000LL )\n      {\n         stateCountMinus1 >>= 32;\n         log2 += 32;\n      }\n\n      if ( stateCountMinus1 & 0xFFFF0000LL )\n      {\n         stateCountMinus1 >>= 16;\n         log2 += 16;\n      }\n\n      if ( stateCountMinus1 & 0xFF00LL )\n      {\n         stateCountMinus1 >>= 8;\n         log2 += 8;\n      }\n\n      if ( stateCountMinus1 & 0xF0LL )\n      {\n         stateCountMinus1 >>= 4;\n         log2 += 4;\n      }\n\n      if ( stateCountMinus1 & 0xCLL )\n      {\n         stateCountMinus1 >>= 2;\n         log2 += 2;\n      }\n\n      if ( stateCountMinus1 & 0x2LL )\n      {\n         stateCountMinus1 >>= 1;\n         log2 += 1;\n      }\n\n      if ( stateCountMinus1 & 1LL )\n      {\n         log2++;\n      }\n", "      while ( stateCountMinus1 != 0 )\n      {\n         stateCountMinus1 >>= 1;\n         ++log2;\n      }\n"))
same('', 'prefix loop', (EN, "            *outp++ = static_cast<uint8_t>( lengthPrefix );\n            *outp++ = static_cast<uint8_t>( lengthPrefix >> ( 1 * 8 ) );\n            *outp++ = static_cast<uint8_t>( lengthPrefix >> ( 2 * 8 ) );\n            *outp++ = static_cast<uint8_t>( lengthPrefix >> ( 3 * 8 ) );\n            *outp++ = static_cast<uint8_t>( lengthPrefix >> ( 4 * 8 ) );\n            *outp++ = static_cast<uint8_t>( lengthPrefix >> ( 5 * 8 ) );\n            *outp++ = static_cast<uint8_t>( lengthPrefix >> ( 6 * 8 ) );\n            *outp++ = static_cast<uint8_t>( lengthPrefix >> ( 7 * 8 ) );\n", "            for ( unsigned b = 0; b < 8; ++b )\n            {\n               *outp++ = static_cast<uint8_t>( lengthPrefix >> ( b * 8 ) );\n            }\n"))
same('', 'pack helper', (EN, "         register_ |= static_cast<RegisterT>( uValue ) << registerBitsUsed_;\n#ifdef VALIDATE_BASIC\n         // Before transfer", "         const auto part = static_cast<RegisterT>( uValue );\n         register_ = register_ | static_cast<RegisterT>( part << registerBitsUsed_ );\n#ifdef VALIDATE_BASIC\n         // Before transfer"))
# ---- P25
bug('P25', 'count before loop', (CW, "      recordCount_ += requestedRecordCount;\n\n      // When we leave", "      // When we leave"), (CW, "      uint64_t endRecordIndex = recordCount_ + requestedRecordCount;\n", "      uint64_t endRecordIndex = recordCount_ + requestedRecordCount;\n      recordCount_ = endRecordIndex;\n"))
bug('P25', 'count assigned', (CW, "      recordCount_ += requestedRecordCount;\n", "      recordCount_ = requestedRecordCount;\n"))
bug('P25', 'count stored at ctor', (CW, "      cVector_->setRecordCount( recordCount_ );\n      cVector_->setBinary", "      if ( dataPacketsCount_ > 0 )\n      {\n         cVector_->setRecordCount( recordCount_ );\n      }\n      cVector_->setBinary"))
bug('P25', 'packets counted', (CW, "      cVector_->setRecordCount( recordCount_ );\n", "      cVector_->setRecordCount( dataPacketsCount_ );\n"))
bug('P25', 'one chunk', (CW, "                  ( recordCount < 50ULL ) ? recordCount : 50ULL; // min(recordCount, 50ULL);\n               bytestream->processRecords( static_cast<unsigned>( recordCount ) );\n            }\n         }\n", "                  ( recordCount < 50ULL ) ? recordCount : 50ULL; // min(recordCount, 50ULL);\n               bytestream->processRecords( static_cast<unsigned>( recordCount ) );\n            }\n         }\n         if ( bytestreams_[0]->currentRecordIndex() == endRecordIndex )\n         {\n            break;\n         }\n"))
bug('P25', 'chunk fixed', (CW, "                  ( recordCount < 50ULL ) ? recordCount : 50ULL; // min(recordCount, 50ULL);\n", "                  50ULL;\n"))
bug('P25', 'constant unlimited', (DE, "   if ( static_cast<uint64_t>( count ) > remainingRecordCount )\n   {\n      count = static_cast<unsigned>( remainingRecordCount );\n   }\n", "   if ( remainingRecordCount == 0 )\n   {\n      count = 0;\n   }\n"))
bug('P25', 'float remaining', (DE, "   if ( n > maxRecordCount_ - currentRecordIndex_ )\n   {\n      n = static_cast<unsigned>( maxRecordCount_ - currentRecordIndex_ );", "   if ( n > maxRecordCount_ )\n   {\n      n = static_cast<unsigned>( maxRecordCount_ );"))
bug('P25', 'integer not counted', (DE, "   // Update counts of records processed\n   currentRecordIndex_ += recordCount;", "   // Update counts of records processed\n   currentRecordIndex_ = recordCount;"))
bug('P25', 'string overrun', (DE, "while ( currentRecordIndex_ < maxRecordCount_ && nBytesRead < nBytesAvailable", "while ( currentRecordIndex_ <= maxRecordCount_ && nBytesRead < nBytesAvailable"))
bug('P25', 'read capacity', (CR, "outputCount = chan->dbuf.impl()->nextIndex();", "outputCount = static_cast<unsigned>( chan->dbuf.impl()->capacity() );"))
bug('P25', 'read last only', (CR, "         if ( i == 0 )\n         {\n            outputCount =", "         if ( i + 1 == channels_.size() || i == 0 )\n         {\n            outputCount ="))
bug('P25', 'vector count clipped', ('src/CompressedVectorNodeImpl.h', "recordCount_ = recordCount;", "recordCount_ = std::max( recordCount, recordCount_ );"))
same('', 'count end', (CW, "      recordCount_ += requestedRecordCount;\n", "      recordCount_ = endRecordIndex;\n"))
same('', 'work left', (CW, "         uint64_t totalRecordCount = 0;\n         for ( auto &bytestream : bytestreams_ )\n         {\n            totalRecordCount += endRecordIndex - bytestream->currentRecordIndex();\n         }\n", "         uint64_t totalRecordCount = 0;\n         for ( const auto &bytestream : bytestreams_ )\n         {\n            if ( bytestream->currentRecordIndex() != endRecordIndex )\n            {\n               ++totalRecordCount;\n            }\n         }\n"))
same('', 'float min', (DE, "   if ( n > maxInputRecords )\n   {\n      n = maxInputRecords;\n   }\n", "   n = std::min( n, maxInputRecords );\n"))
same('', 'read ranged', (CR, "      unsigned outputCount = 0;\n      for ( unsigned i = 0; i < channels_.size(); i++ )\n      {\n         DecodeChannel *chan = &channels_[i];\n         if ( i == 0 )\n         {\n            outputCount = chan->dbuf.impl()->nextIndex();\n         }\n         else\n         {\n            if ( outputCount != chan->dbuf.impl()->nextIndex() )\n            {\n               throw E57_EXCEPTION2(\n                  ErrorInternal, \"outputCount=\" + toString( outputCount ) +\n                                    \" nextIndex=\" + toString( chan->dbuf.impl()->nextIndex() ) );\n            }\n         }\n      }\n", "      const unsigned outputCount =\n         channels_.empty() ? 0 : channels_.front().dbuf.impl()->nextIndex();\n      for ( const auto &chan : channels_ )\n      {\n         const unsigned produced = chan.dbuf.impl()->nextIndex();\n         if ( produced != outputCount )\n         {\n            throw E57_EXCEPTION2( ErrorInternal, \"outputCount=\" + toString( outputCount ) +\n                                                    \" nextIndex=\" + toString( produced ) );\n         }\n      }\n"))
same('', 'close order', (CW, "      cVector_->setRecordCount( recordCount_ );\n      cVector_->setBinarySectionLogicalStart( sectionHeaderLogicalStart_ );\n", "      const auto total = static_cast<int64_t>( recordCount_ );\n      cVector_->setBinarySectionLogicalStart( sectionHeaderLogicalStart_ );\n      cVector_->setRecordCount( total );\n"))
# ---- P22
bug('P22', 'payload limit', (CW, "DATA_PACKET_MAX - sizeof( DataPacketHeader ) - cNumByteStreams * sizeof( uint16_t );", "DATA_PACKET_MAX - sizeof( DataPacketHeader );"))
bug('P22', 'no split', (CW, "      if ( cTotalOutput < cPacketMaxPayloadBytes )", "      if ( cTotalOutput < 2 * cPacketMaxPayloadBytes )"))
bug('P22', 'section before index', (CW, "      // Write one index packet (required by standard).\n      packetWriteIndex();\n", ""), (CW, "      sectionLogicalLength_ = imf->unusedLogicalStart_ - sectionHeaderLogicalStart_;\n", "      sectionLogicalLength_ = imf->unusedLogicalStart_ - sectionHeaderLogicalStart_;\n      packetWriteIndex();\n"))
bug('P22', 'last packet', (CW, "      if ( dataPacketsCount_ == 0 )\n      {\n         dataPhysicalOffset_ = packetPhysicalOffset;\n      }\n      dataPacketsCount_++;\n\n      // !!!", "      dataPhysicalOffset_ = packetPhysicalOffset;\n      dataPacketsCount_++;\n\n      // !!!"))
bug('P22', 'index logical', (CW, "      topIndexPhysicalOffset_ = imf->file_->logicalToPhysical( packetLogicalOffset );", "      topIndexPhysicalOffset_ = packetLogicalOffset;"))
bug('P22', 'index length', (CW, "      indexPacket.header.packetLogicalLengthMinus1 = cPacketLength - 1;", "      indexPacket.header.packetLogicalLengthMinus1 = cPacketLength;"))
bug('P22', 'index chunk', (CW, "      indexPacket.entries[0].chunkPhysicalOffset = dataPhysicalOffset_;", "      indexPacket.entries[0].chunkPhysicalOffset = sectionHeaderLogicalStart_;"))
bug('P22', 'blob remainder', (BL, "binarySectionLogicalLength_ += 4 - remainder;", "binarySectionLogicalLength_ += remainder;"))
bug('P22', 'blob declared', (BL, "      header.sectionLogicalLength = binarySectionLogicalLength_;", "      header.sectionLogicalLength = blobLogicalLength_;"))
bug('P22', 'padding stale', (CW, "         *p++ = 0;\n         packetLength++;\n", "         p++;\n         packetLength++;\n"))
bug('P22', 'zero length', (CW, "static_cast<uint16_t>( packetLength - 1 );\n\n      // Double check that data packet is well formed\n      dataPacket_.verify( packetLength );\n\n      // Write packet at", "static_cast<uint16_t>( packetLength );\n\n      // Write packet at"))
bug('P22', 'section length packets', (CW, "      header.sectionLogicalLength = sectionLogicalLength_;", "      header.sectionLogicalLength = sectionLogicalLength_ - sizeof( header );"))
bug('P22', 'file length', ('src/ImageFileImpl.cpp', "header.filePhysicalLength = file_->length( CheckedFile::Physical );", "header.filePhysicalLength = file_->length( CheckedFile::Logical );"))
bug('P22', 'stream count', (CW, "      dataPacket_.header.bytestreamCount =\n         static_cast<uint16_t>( cNumByteStreams ); // %%% Truncation\n", "      dataPacket_.header.bytestreamCount =\n         static_cast<uint16_t>( cNumByteStreams > 1 ? cNumByteStreams - 1 : 1 );\n"))
bug('P22', 'rounding up', (CW, "std::floor( cFractionToSend", "std::ceil( cFractionToSend"), (CW, "( cPacketMaxPayloadBytes - 1 ) / static_cast", "( cPacketMaxPayloadBytes + 3 ) / static_cast"))
same('', 'pad at once', (CW, "      while ( packetLength % 4 )\n      {\n         // Double check we aren't accidentally going to write off end of\n         // vector<char>\n         if ( p >= &packet[DATA_PACKET_MAX] )\n         {\n            throw E57_EXCEPTION1( ErrorInternal );\n         }\n         *p++ = 0;\n         packetLength++;\n", "      const unsigned padding = ( 4 - packetLength % 4 ) % 4;\n      if ( packetLength + padding > DATA_PACKET_MAX )\n      {\n         throw E57_EXCEPTION1( ErrorInternal );\n      }\n      for ( unsigned pad = 0; pad < padding; ++pad )\n      {\n         *p++ = 0;\n         packetLength++;\n"))
same('', 'stream helper', (CW, "      for ( unsigned i = 0; i < cNumByteStreams; ++i )\n      {\n         bsbLength[i] = static_cast<uint16_t>( count.at( i ) ); // %%% Truncation\n", "      unsigned stream = 0;\n      for ( const size_t bytes : count )\n      {\n         bsbLength[stream++] = static_cast<uint16_t>( bytes );\n"))
same('', 'payload pointer', (CW, "reinterpret_cast<uint16_t *>( &packet[sizeof( DataPacketHeader )] );", "reinterpret_cast<uint16_t *>( &dataPacket_.payload[0] );"))
same('', 'zero padding set', (CW, "      auto data = reinterpret_cast<char *>( &packet[sizeof( DataPacketHeader )] );\n      while ( packetLength % 4 )\n      {\n         *data++ = 0;\n\n         packetLength++;\n      }\n", "      const unsigned padding = ( 4 - packetLength % 4 ) % 4;\n      memset( &packet[packetLength], 0, padding );\n      packetLength += padding;\n"), (CW, "#include <cmath>", "#include <cmath>\n#include <cstring>"))
same('', 'blob rounding', (BL, "      unsigned remainder = binarySectionLogicalLength_ % 4;\n      if ( remainder > 0 )\n      {\n         binarySectionLogicalLength_ += 4 - remainder;\n      }\n", "      binarySectionLogicalLength_ = ( binarySectionLogicalLength_ + 3 ) / 4 * 4;\n"))
# ---- P23
PK, SH, IF = 'src/Packet.cpp', 'src/SectionHeaders.cpp', 'src/ImageFileImpl.cpp'
bug('P23', 'no length check', (PK, "   // Check packet length is multiple of 4\n   if ( packetLength % 4 )\n   {\n      throw E57_EXCEPTION2( ErrorBadCVPacket, \"DATA; packetLength=\" + toString( packetLength ) );\n   }\n", ""))
bug('P23', 'index verify lost', (PK, "         ipkt->verify( packetLength );\n", "         (void)ipkt;\n"))
bug('P23', 'needed only', (PK, "   if ( needed > packetLength || needed + 3 < packetLength )", "   if ( needed + 3 < packetLength )"))
bug('P23', 'needed fewer', (PK, "   if ( needed > packetLength || needed + 3 < packetLength )", "   if ( needed > packetLength )"))
bug('P23', 'streams off by one', (PK, "   if ( bytestreamNumber >= header.bytestreamCount )", "   if ( bytestreamNumber > header.bytestreamCount )"))
bug('P23', 'stream array', (PK, "   if ( ( sizeof( DataPacketHeader ) + 2 * bytestreamCount ) > packetLength )", "   if ( ( sizeof( DataPacketHeader ) + bytestreamCount ) > packetLength )"))
bug('P23', 'entries fit', (PK, "   if ( packetLength < cNeededLength )\n   {\n      throw E57_EXCEPTION2( ErrorBadCVPacket, \"INDEX; packetLength=\"", "   if ( packetLength > cNeededLength )\n   {\n      throw E57_EXCEPTION2( ErrorBadCVPacket, \"INDEX; packetLength=\""))
bug('P23', 'too many entries', (PK, "   if ( header.entryCount > MAX_ENTRIES )", "   if ( header.entryCount > 2 * MAX_ENTRIES )"))
bug('P23', 'unknown type', (PK, "      default:\n         throw E57_EXCEPTION2( ErrorInternal, \"packetType=\" + toString( header.packetType ) );\n   }\n\n   entry.log", "      default:\n         break;\n   }\n\n   entry.log"))
bug('P23', 'section data', (SH, "filePhysicalSize > 0 && dataPhysicalOffset >= filePhysicalSize", "filePhysicalSize > 0 && sectionLogicalLength + dataPhysicalOffset == filePhysicalSize"))
bug('P23', 'section not verified', (CR, "      sectionHeader.verify( imf->file_->length( CheckedFile::Physical ) );\n", "      sectionHeader.verify();\n"))
bug('P23', 'section verify late', (CR, "#if VALIDATE_BASIC\n      sectionHeader.verify( imf->file_->length( CheckedFile::Physical ) );\n#endif\n", ""), (CR, "      // Just before return (and can't throw) increment reader count", "      sectionHeader.verify( imf->file_->length( CheckedFile::Physical ) );\n      // Just before return (and can't throw) increment reader count"))
bug('P23', 'first packet type', (CR, "         if ( dpkt->header.packetType != DATA_PACKET )\n         {\n            throw E57_EXCEPTION2( ErrorBadCVPacket,", "         if ( dpkt->header.packetType > DATA_PACKET )\n         {\n            throw E57_EXCEPTION2( ErrorBadCVPacket,"))
bug('P23', 'version', (IF, "if ( header.majorVersion == E57_FORMAT_MAJOR && header.minorVersion > E57_FORMAT_MINOR )", "if ( header.majorVersion > E57_FORMAT_MAJOR && header.minorVersion > E57_FORMAT_MINOR )"))
bug('P23', 'signature seven', (IF, "strncmp( header.fileSignature, \"ASTM-E57\", 8 )", "strncmp( header.fileSignature, \"ASTM-E57\", 7 )"))
bug('P23', 'length smaller', (IF, "if ( header.filePhysicalLength != file->length( CheckedFile::Physical ) )", "if ( header.filePhysicalLength > file->length( CheckedFile::Physical ) )"))
bug('P23', 'page size', (IF, "if ( header.majorVersion != 0 && header.pageSize != CheckedFile::physicalPageSize )", "if ( header.majorVersion != 0 && header.pageSize > CheckedFile::physicalPageSize )"))
bug('P23', 'read end', (CF, "   if ( end > logicalLength )\n", "   if ( end > logicalLength + physicalPageSize )\n"))
bug('P23', 'view overflow', (CF, "if ( start > streamSize_ || count > streamSize_ - start )", "if ( start + count > streamSize_ )"))
bug('P23', 'padding unchecked', (PK, "      if ( reinterpret_cast<const char *>( this )[i] != 0 )", "      if ( reinterpret_cast<const char *>( this )[i] < 0 )"))
same('', 'verify helper', (PK, "void DataPacket::verify( unsigned bufferLength ) const\n{", "static unsigned sumLengths( const uint16_t *lengths, unsigned count )\n{\n   unsigned total = 0;\n   while ( count > 0 )\n   {\n      --count;\n      total += lengths[count];\n   }\n   return total;\n}\n\nvoid DataPacket::verify( unsigned bufferLength ) const\n{"), (PK, "   unsigned totalStreamByteCount = 0;\n\n   for ( unsigned i = 0; i < header.bytestreamCount; i++ )\n   {\n      totalStreamByteCount += bsbLength[i];\n   }\n", "   const unsigned totalStreamByteCount = sumLengths( bsbLength, header.bytestreamCount );\n"))
same('', 'signature memcmp', (IF, "strncmp( header.fileSignature, \"ASTM-E57\", 8 ) != 0", "memcmp( header.fileSignature, \"ASTM-E57\", sizeof( header.fileSignature ) ) != 0"))
same('', 'reserved any', (SH, "      for ( unsigned i = 0; i < sizeof( reserved1 ); i++ )\n      {\n         if ( reserved1[i] != 0 )\n         {\n            throw E57_EXCEPTION2( ErrorBadCVHeader,\n                                  \"i=\" + toString( i ) + \" reserved=\" + toString( reserved1[i] ) );\n         }\n      }\n", "      for ( const auto byte : reserved1 )\n      {\n         if ( byte != 0 )\n         {\n            throw E57_EXCEPTION2( ErrorBadCVHeader, \"reserved=\" + toString( byte ) );\n         }\n      }\n"))
same('', 'needed inner', (PK, "   if ( needed > packetLength || needed + 3 < packetLength )", "   const bool fits = needed <= packetLength && packetLength - needed <= 3;\n   if ( !fits )"))
same('', 'packet type if', (PK, "   switch ( header.packetType )\n   {\n      case DATA_PACKET:\n      {\n         auto dpkt = reinterpret_cast<DataPacket *>( entry.buffer_ );\n\n         dpkt->verify( packetLength );\n", "   if ( header.packetType > EMPTY_PACKET )\n   {\n      throw E57_EXCEPTION2( ErrorInternal, \"packetType=\" + toString( header.packetType ) );\n   }\n   switch ( header.packetType )\n   {\n      case DATA_PACKET:\n      {\n         reinterpret_cast<DataPacket *>( entry.buffer_ )->verify( packetLength );\n         auto dpkt = reinterpret_cast<DataPacket *>( entry.buffer_ );\n         (void)dpkt;\n"))
# ---- P24
bug('P24', 'label early', (PK, "   // Entry holds nothing valid until the new packet is read and verified.\n   entry.logicalOffset_ = 0;\n", "   entry.logicalOffset_ = packetLogicalOffset;\n"))
bug('P24', 'label stale', (PK, "   // Entry holds nothing valid until the new packet is read and verified.\n   entry.logicalOffset_ = 0;\n", ""))
bug('P24', 'label late zero', (PK, "   // Entry holds nothing valid until the new packet is read and verified.\n   entry.logicalOffset_ = 0;\n", ""), (PK, "   // Verify that packet is good.\n", "   entry.logicalOffset_ = 0;\n   // Verify that packet is good.\n"))
bug('P24', 'no label', (PK, "   entry.logicalOffset_ = packetLogicalOffset;\n\n   // Mark", "   entry.logicalOffset_ = packetLogicalOffset + packetLength;\n\n   // Mark"))
bug('P24', 'wrong entry', (PK, "   pkt = entries_[oldestEntry].buffer_;", "   pkt = entries_[useCount_ % entries_.size()].buffer_;"))
bug('P24', 'hit wrong', (PK, "      if ( packetLogicalOffset == entry.logicalOffset_ )\n", "      if ( packetLogicalOffset <= entry.logicalOffset_ )\n"))
bug('P24', 'no lock count', (PK, "   // Create lock so we are sure we will be unlocked when use is finished.\n   std::unique_ptr<PacketLock> plock( new PacketLock( this, oldestEntry ) );\n\n   // Increment cache lock just before return\n   ++lockCount_;\n", "   std::unique_ptr<PacketLock> plock( new PacketLock( this, oldestEntry ) );\n"))
bug('P24', 'lock check', (PK, "   if ( lockCount_ > 0 )\n", "   if ( lockCount_ > 1 )\n"))
bug('P24', 'count early', (PK, "   readPacket( oldestEntry, packetLogicalOffset );\n", "   ++lockCount_;\n   readPacket( oldestEntry, packetLogicalOffset );\n   --lockCount_;\n"))
bug('P24', 'no unlock', (PK, "      cache_->unlock( cacheIndex_ );\n", "      if ( cacheIndex_ > 0 )\n      {\n         cache_->unlock( cacheIndex_ );\n      }\n"))
bug('P24', 'stale packet', (CR, "            nextPacketLogicalOffset =\n               currentPacketLogicalOffset + dpkt->header.packetLogicalLengthMinus1 + 1;\n", "            nextPacketLogicalOffset = findNextDataPacket( currentPacketLogicalOffset + dpkt->header.packetLogicalLengthMinus1 + 1 );\n"))
bug('P24', 'old packet', (CR, "         dpkt = dataPacket( nextPacketLogicalOffset );\n", "         dataPacket( nextPacketLogicalOffset );\n"))
bug('P24', 'lock given away', (CR, "      return reinterpret_cast<DataPacket *>( packet );\n", "      packetLock.release();\n      return reinterpret_cast<DataPacket *>( packet );\n"))
bug('P24', 'half offset', (PK, "if ( packetLogicalOffset == entry.logicalOffset_ )", "if ( static_cast<uint32_t>( packetLogicalOffset ) == static_cast<uint32_t>( entry.logicalOffset_ ) )"))
same('', 'cache find', (PK, "   unsigned oldestEntry = 0;\n   unsigned oldestUsed = entries_.at( 0 ).lastUsed_;\n\n   for ( unsigned i = 0; i < entries_.size(); ++i )\n   {\n      const auto &entry = entries_[i];\n\n      if ( entry.lastUsed_ < oldestUsed )\n      {\n         oldestEntry = i;\n         oldestUsed = entry.lastUsed_;\n      }\n   }\n", "   unsigned oldestEntry = 0;\n   for ( unsigned i = 1; i < entries_.size(); ++i )\n   {\n      if ( entries_[i].lastUsed_ < entries_[oldestEntry].lastUsed_ )\n      {\n         oldestEntry = i;\n      }\n   }\n"))
same('', 'lock helper', (PK, "         std::unique_ptr<PacketLock> plock( new PacketLock( this, i ) );\n\n         // Increment cache lock just before return\n         ++lockCount_;\n\n         return plock;\n", "         std::unique_ptr<PacketLock> plock;\n         plock.reset( new PacketLock( this, i ) );\n         lockCount_ += 1;\n         return plock;\n"))
same('', 'lock once', (PK, "   // Publish buffer address to caller\n   pkt = entries_[oldestEntry].buffer_;\n\n   // Create lock so we are sure we will be unlocked when use is finished.\n   std::unique_ptr<PacketLock> plock( new PacketLock( this, oldestEntry ) );\n", "   std::unique_ptr<PacketLock> plock( new PacketLock( this, oldestEntry ) );\n   CacheEntry &used = entries_.at( oldestEntry );\n   pkt = &used.buffer_[0];\n"))
same('', 'next packet early', (CR, "      auto dpkt = dataPacket( currentPacketLogicalOffset );\n", "      DataPacket *dpkt = dataPacket( currentPacketLogicalOffset );\n      const uint64_t followingOffset =\n         currentPacketLogicalOffset + dpkt->header.packetLogicalLengthMinus1 + 1;\n"), (CR, "            nextPacketLogicalOffset =\n               currentPacketLogicalOffset + dpkt->header.packetLogicalLengthMinus1 + 1;\n", "            nextPacketLogicalOffset = followingOffset;\n"))

SW = 'src/WriterImpl.cpp'
SR = 'src/ReaderImpl.cpp'
SDT = 'src/E57SimpleData.cpp'
ESW = 'src/E57SimpleWriter.cpp'
bug('P26', 'writer name typo', (SW, 'scan.set( "sensorModel", StringNode(', 'scan.set( "sensorModelName", StringNode('))
bug('P26', 'reader wrong name', (SR, 'data3DHeader.pose.translation.y = FloatNode( translation.get( "y" ) ).value();', 'data3DHeader.pose.translation.y = FloatNode( translation.get( "x" ) ).value();'))
bug('P26', 'reader wrong member', (SR, 'data3DHeader.sphericalBounds.azimuthEnd = FloatNode( sbox.get( "azimuthEnd" ) ).value();', 'data3DHeader.sphericalBounds.azimuthStart = FloatNode( sbox.get( "azimuthEnd" ) ).value();'))
bug('P26', 'min max swapped on reading', (SR, 'data3DHeader.indexBounds.returnMinimum =\n               IntegerNode( ibox.get( "returnMinimum" ) ).value();', 'data3DHeader.indexBounds.returnMinimum =\n               IntegerNode( ibox.get( "returnMaximum" ) ).value();'))
bug('P26', 'narrowed', (SR, 'static_cast<uint32_t>( IntegerNode( proto.get( "rowIndex" ) ).maximum() );', 'static_cast<uint16_t>( IntegerNode( proto.get( "rowIndex" ) ).maximum() );'))
bug('P26', 'precision lost', (SR, 'if ( floatCartesianX.precision() == PrecisionSingle )', 'if ( floatCartesianX.precision() != PrecisionSingle )'))
bug('P26', 'scale forgotten', (SR, '               data3DHeader.pointFields.angleScale = scale;\n', ''))
bug('P26', 'bit forgotten', (SR, 'data3DHeader.pointFields.isTimeStampInvalidField = proto.isDefined( "isTimeStampInvalid" );', ''))
bug('P26', 'image size of other picture', (SR, 'image2DHeader.sphericalRepresentation.pngImageSize =\n               BlobNode( sphericalRepresentation.get( "pngImage" ) ).byteCount();', 'image2DHeader.sphericalRepresentation.jpegImageSize =\n               BlobNode( sphericalRepresentation.get( "pngImage" ) ).byteCount();'))
bug('P26', 'mask read from picture', (SR, 'BlobNode imageMask( image.get( "imageMask" ) );', 'BlobNode imageMask( image.get( "pngImage" ) );'))
bug('P26', 'projection swapped', (SR, '            if ( image.isDefined( "sphericalRepresentation" ) )\n            {\n               const StructureNode sphericalRepresentation(\n                  image.get( "sphericalRepresentation" ) );\n\n               return _readImage2DNode( sphericalRepresentation, imageType, pBuffer, start, count );', '            if ( image.isDefined( "sphericalRepresentation" ) )\n            {\n               const StructureNode sphericalRepresentation(\n                  image.get( "sphericalRepresentation" ) );\n\n               return _readImage2DNode( sphericalRepresentation, ImageJPEG, pBuffer, start, count );'))
bug('P26', 'index after append', (SW, '      return data3D_.childCount() - 1;', '      return data3D_.childCount();'))
bug('P26', 'colour clamp', (SW, '"colorGreenMaximum",\n                       IntegerNode( imf_, static_cast<int64_t>(', '"colorGreenMaximum",\n                       IntegerNode( imf_, static_cast<int8_t>('))
bug('P26', 'metadata dropped', (SW, 'if ( !options.coordinateMetadata.empty() )', 'if ( options.coordinateMetadata.size() > 255 )'))
bug('P26', 'groups swapped', (SR, 'groupSDBuffers.emplace_back( imf_, "startPointIndex", startPointIndex, groupCount,', 'groupSDBuffers.emplace_back( imf_, "startPointIndex", pointCount, groupCount,'))
bug('P26', 'y range', (SW, 'proto.set( "cartesianY", getPointProto() );', 'proto.set( "cartesianY", FloatNode( imf_, 0.0, PrecisionSingle ) );'))
bug('P26', 'sizes row column', (SR, '            row = IntegerNode( indexBounds.get( "rowMaximum" ) ).value() -\n                  IntegerNode( indexBounds.get( "rowMinimum" ) ).value() + 1;', '            row = IntegerNode( indexBounds.get( "rowMaximum" ) ).value() -\n                  IntegerNode( indexBounds.get( "rowMinimum" ) ).value();'))
same('', 'string reading helper', (SR, '   bool ReaderImpl::ReadData3D( int64_t dataIndex', '   static void readString( const StructureNode &from, const ustring &name, ustring &to )\n   {\n      if ( from.isDefined( name ) )\n      {\n         to = StringNode( from.get( name ) ).value();\n      }\n   }\n\n   bool ReaderImpl::ReadData3D( int64_t dataIndex'), (SR, '      if ( scan.isDefined( "sensorModel" ) )\n      {\n         data3DHeader.sensorModel = StringNode( scan.get( "sensorModel" ) ).value();\n      }\n', '      readString( scan, "sensorModel", data3DHeader.sensorModel );\n'))
same('', 'pose written by helper', (SW, '   int64_t WriterImpl::NewImage2D( Image2D &image2DHeader )\n', '   static StructureNode makePoint( const ImageFile &imf, const Translation &t )\n   {\n      StructureNode point( imf );\n      point.set( "z", FloatNode( imf, t.z ) );\n      point.set( "y", FloatNode( imf, t.y ) );\n      point.set( "x", FloatNode( imf, t.x ) );\n      return point;\n   }\n\n   int64_t WriterImpl::NewImage2D( Image2D &image2DHeader )\n'), (SW, '         StructureNode translation( imf_ );\n         pose.set( "translation", translation );\n         translation.set( "x", FloatNode( imf_, image2DHeader.pose.translation.x ) );\n         translation.set( "y", FloatNode( imf_, image2DHeader.pose.translation.y ) );\n         translation.set( "z", FloatNode( imf_, image2DHeader.pose.translation.z ) );\n', '         pose.set( "translation", makePoint( imf_, image2DHeader.pose.translation ) );\n'))
same('', 'bits in a table', (SR, '      data3DHeader.pointFields.colorRedField = proto.isDefined( "colorRed" );\n      data3DHeader.pointFields.colorGreenField = proto.isDefined( "colorGreen" );\n      data3DHeader.pointFields.colorBlueField = proto.isDefined( "colorBlue" );\n', '      struct Bit\n      {\n         const char *name;\n         bool &flag;\n      };\n      const Bit colours[] = { { "colorRed", data3DHeader.pointFields.colorRedField },\n                              { "colorGreen", data3DHeader.pointFields.colorGreenField },\n                              { "colorBlue", data3DHeader.pointFields.colorBlueField } };\n      for ( const auto &bit : colours )\n      {\n         bit.flag = proto.isDefined( bit.name );\n      }\n'))
same('', 'image type by if', (SR, '      switch ( imageType )\n      {\n         case ImageNone:\n            return 0;\n\n         case ImageJPEG:\n            if ( image.isDefined( "jpegImage" ) )\n', '      if ( imageType == ImageNone )\n      {\n         return 0;\n      }\n      switch ( imageType )\n      {\n         default:\n            break;\n\n         case ImageJPEG:\n            if ( image.isDefined( "jpegImage" ) )\n'))

bug('P27', 'wrong member allocated', (SDT, 'colorBlue = new uint16_t[cPointCount];', 'colorGreen = new uint16_t[cPointCount];'))
bug('P27', 'wrong condition', (SDT, 'if ( data3D.pointFields.normalZField )', 'if ( data3D.pointFields.normalYField )'))
bug('P27', 'too short', (SDT, 'rowIndex = new int32_t[cPointCount];', 'rowIndex = new int32_t[cPointCount / 2];'))
bug('P27', 'not released', (SDT, '      delete[] isTimeStampInvalid;\n', ''))
bug('P27', 'released twice', (SDT, '      delete[] returnCount;\n', '      delete[] returnIndex;\n'))
bug('P27', 'releases borrowed', (SDT, '      if ( !_selfAllocated )\n', '      if ( !_selfAllocated && cartesianX == nullptr )\n'))
bug('P27', 'writer binds other', (SW, 'sourceBuffers.emplace_back( imf_, "returnCount", buffers.returnCount, count, true );', 'sourceBuffers.emplace_back( imf_, "returnCount", buffers.returnIndex, count, true );'))
bug('P27', 'reader binds other', (SR, '"colorGreen", buffers.colorGreen,', '"colorGreen", buffers.colorBlue,'))
bug('P27', 'null bound', (SW, 'if ( proto.isDefined( "timeStamp" ) && ( buffers.timeStamp != nullptr ) )', 'if ( proto.isDefined( "timeStamp" ) )'))
bug('P27', 'absent bound', (SW, 'if ( proto.isDefined( "isColorInvalid" ) && ( buffers.isColorInvalid != nullptr ) )', 'if ( buffers.isColorInvalid != nullptr )'))
bug('P27', 'unscaled', (SW, '"sphericalAzimuth", buffers.sphericalAzimuth, count,\n                                     true, true );', '"sphericalAzimuth", buffers.sphericalAzimuth, count,\n                                     true );'))
bug('P27', 'one record less', (SW, '"intensity", buffers.intensity, count, true, true );', '"intensity", buffers.intensity, count - 1, true, true );'))
bug('P27', 'minmax null', (ESW, 'if ( writePointRange && pointFields.cartesianZField && inBuffers.cartesianZ )', 'if ( writePointRange && pointFields.cartesianZField )'))
bug('P27', 'single delete', (SDT, '      delete[] timeStamp;\n', '      delete timeStamp;\n'))
same('', 'allocate by helper', (SDT, '   /// To avoid exposing M_PI, we define the constructor here.\n', '   template <typename T> static T *allocateIf( bool present, size_t count )\n   {\n      return present ? new T[count] : nullptr;\n   }\n\n   /// To avoid exposing M_PI, we define the constructor here.\n'), (SDT, '      if ( data3D.pointFields.colorRedField )\n      {\n         colorRed = new uint16_t[cPointCount];\n      }\n', '      colorRed = allocateIf<uint16_t>( data3D.pointFields.colorRedField, cPointCount );\n'), (SDT, '      if ( data3D.pointFields.colorGreenField )\n      {\n         colorGreen = new uint16_t[cPointCount];\n      }\n', '      colorGreen = allocateIf<uint16_t>( data3D.pointFields.colorGreenField, cPointCount );\n'))
same('', 'push_back buffers', (SW, 'sourceBuffers.emplace_back( imf_, "cartesianX", buffers.cartesianX, count, true, true );', 'sourceBuffers.push_back( SourceDestBuffer( imf_, "cartesianX", buffers.cartesianX, count, true, true ) );'))
same('', 'bind by lambda', (SW, '      if ( proto.isDefined( "colorRed" ) && ( buffers.colorRed != nullptr ) )\n      {\n         sourceBuffers.emplace_back( imf_, "colorRed", buffers.colorRed, count, true );\n      }\n', '      const auto bindColour = [&]( const char *name, uint16_t *buffer ) {\n         if ( buffer != nullptr && proto.isDefined( name ) )\n         {\n            sourceBuffers.emplace_back( imf_, name, buffer, count, true );\n         }\n      };\n      bindColour( "colorRed", buffers.colorRed );\n'))
same('', 'release in reverse', (SDT, '      delete[] normalX;\n      delete[] normalY;\n      delete[] normalZ;\n', '      delete[] normalZ;\n      delete[] normalY;\n      delete[] normalX;\n      normalX = normalY = normalZ = nullptr;\n'))
same('', 'minmax lambda', (ESW, '            angleMinimum = std::min( inBuffers.sphericalAzimuth[i], angleMinimum );\n            angleMaximum = std::max( inBuffers.sphericalAzimuth[i], angleMaximum );\n', '            const auto a = inBuffers.sphericalAzimuth[i];\n            if ( a < angleMinimum )\n            {\n               angleMinimum = a;\n            }\n            if ( a > angleMaximum )\n            {\n               angleMaximum = a;\n            }\n'))

bug('P28', 'integer coordinates accepted', (SW, '               throw E57_EXCEPTION2( ErrorInvalidNodeType, "pointRangeNodeType cannot be Integer" );\n', '               return IntegerNode( imf_, 0, static_cast<int64_t>( pointRangeMin ), static_cast<int64_t>( pointRangeMax ) );\n'))
bug('P28', 'zero angle scale', (SW, '               if ( angleScale == 0.0 )\n', '               if ( angleScale < 0.0 )\n'))
bug('P28', 'other code', (SW, 'throw E57_EXCEPTION2( ErrorInvalidData3DValue, "pointRangeScale cannot be 0" );', 'throw E57_EXCEPTION2( ErrorBadAPIArgument, "pointRangeScale cannot be 0" );'))
bug('P28', 'buffers for integer angles', (SDT, 'if ( inData3D.pointFields.angleNodeType == NumericalNodeType::Integer )', 'if ( inData3D.pointFields.pointRangeNodeType == NumericalNodeType::Integer )'))
bug('P28', 'appended early', (SW, '      scan.set( "guid", StringNode( imf_, data3DHeader.guid ) );\n', '      data3D_.append( scan );\n      scan.set( "guid", StringNode( imf_, data3DHeader.guid ) );\n'), (SW, '      // Everything is valid, so add it to the file.\n      data3D_.append( scan );\n', ''))
bug('P28', 'no guid', (SW, '         image2DHeader.guid = generateRandomGUID();\n', '         image2DHeader.guid = image2DHeader.name;\n'))
same('', 'scale check up front', (SW, '      const auto getPointProto = [=]() -> Node {\n', '      const auto usable = []( double scale, const char *what ) {\n         if ( !( scale < 0.0 || scale > 0.0 ) )\n         {\n            throw E57_EXCEPTION2( ErrorInvalidData3DValue, std::string( what ) + " cannot be 0" );\n         }\n      };\n      const auto getPointProto = [=]() -> Node {\n'), (SW, '               if ( pointRangeScale == 0.0 )\n               {\n                  throw E57_EXCEPTION2( ErrorInvalidData3DValue, "pointRangeScale cannot be 0" );\n               }\n', '               usable( pointRangeScale, "pointRangeScale" );\n'))

# ---- P15, P16
ST = 'src/StringNodeImpl.cpp'
BN = 'src/BlobNodeImpl.cpp'
IND, SID, FND = 'src/IntegerNodeImpl.cpp', 'src/ScaledIntegerNodeImpl.cpp', 'src/FloatNodeImpl.cpp'
VND, CVD, SND = 'src/VectorNodeImpl.cpp', 'src/CompressedVectorNodeImpl.cpp', 'src/StructureNodeImpl.cpp'
XPD = 'src/E57XmlParser.cpp'
bug('P15', 'integer minimum left out at zero', (IND, "if ( minimum_ != INT64_MIN )", "if ( minimum_ != INT64_MIN && minimum_ != 0 )"))
bug('P15', 'integer value left out when positive', (IND, "if ( value_ != 0 )", "if ( value_ > 0 )"))
bug('P15', 'integer maximum attribute name', (IND, 'cf << " maximum=\\"" << maximum_', 'cf << " max=\\"" << maximum_'))
bug('P15', 'scaled integer offset name', (SID, 'cf << " offset=\\"" << offset_', 'cf << " offset=\\"" << scale_'))
bug('P15', 'scaled integer scale left out', (SID, "if ( scale_ != 1.0 )", "if ( scale_ > 1.0 )"))
bug('P15', 'scaled integer scale as float', (SID, 'cf << " scale=\\"" << scale_', 'cf << " scale=\\"" << static_cast<float>( scale_ )'))
bug('P15', 'float single without precision', (FND, 'cf << " precision=\\"single\\"";', ''))
bug('P15', 'float single maximum left out', (FND, "if ( maximum_ < FLOAT_MAX )", "if ( maximum_ < 1e30 )"))
bug('P15', 'float double value as single', (FND, '<< value_ << "</"', '<< static_cast<float>( value_ ) << "</"'))
bug('P15', 'double digits', (CF, "writeFloatingPoint( d, 17 )", "writeFloatingPoint( d, 15 )"))
bug('P15', 'string split late', (ST, "found - currentPosition + 2", "found - currentPosition + 3"))
bug('P15', 'string piece lost', (ST, "currentPosition = found + 2;", "currentPosition = found + 3;"))
bug('P15', 'blob length is section length', (BN, '<< blobLogicalLength_ << "\\"/>', '<< binarySectionLogicalLength_ << "\\"/>'))
bug('P15', 'blob logical offset', (BN, "uint64_t physicalOffset = cf.logicalToPhysical( binarySectionLogicalStart_ );", "uint64_t physicalOffset = binarySectionLogicalStart_;"))
bug('P15', 'vector hetero negated', (VND, "static_cast<int64_t>( allowHeteroChildren_ )", "static_cast<int64_t>( !allowHeteroChildren_ )"))
bug('P15', 'codecs not written', (CVD, 'codecs_->writeXml( imf, cf, indent + 2, "codecs" );', ''))
bug('P15', 'extension prefix of first', (SND, "<< imf->extensionsUri( index ) <<", "<< imf->extensionsUri( 0 ) <<"))
bug('P15', 'reader default scale', (XPD, "pi.scale = 1.0;", "pi.scale = 0.0;"))
bug('P15', 'reader default precision', (XPD, "         // Not defined defined in XML, so defaults to double\n         pi.precision = PrecisionDouble;", "         pi.precision = PrecisionSingle;"))
bug('P15', 'reader maximum from minimum', (XPD, "ustring maximum_str = lookupAttribute( attributes, att_maximum );\n\n         pi.maximum = convertStrToLL( maximum_str );", "ustring maximum_str = lookupAttribute( attributes, att_minimum );\n\n         pi.maximum = convertStrToLL( maximum_str );"))
bug('P15', 'reader text replaced', (XPD, "pi.childText += toUString( chars );", "pi.childText = toUString( chars );"))
bug('P15', 'reader scale and offset swapped', (XPD, "imf_, intValue, pi.minimum, pi.maximum, pi.scale, pi.offset", "imf_, intValue, pi.minimum, pi.maximum, pi.offset, pi.scale"))
bug('P15', 'reader drops record count', (XPD, "cv_ni->setRecordCount( pi.recordCount );", ""))
bug('P15', 'reader start not converted', (XPD, "imf_->file_->physicalToLogical( pi.fileOffset ) );", "pi.fileOffset );"))
bug('P15', 'reader attribute constant', (XPD, "chLatin_O, chLatin_f, chLatin_f, chLatin_s,\n                                        chLatin_e, chLatin_t, chNull };", "chLatin_o, chLatin_f, chLatin_f, chLatin_s,\n                                        chLatin_e, chLatin_t, chNull };"))
same('P15,P16', 'attribute helper', (XPD, "   bool isAttributeDefined(", "   int64_t integerOr( const Attributes &a, const XMLCh *name, int64_t otherwise )\n   {\n      XMLSize_t i;\n      return a.getIndex( name, i ) ? convertStrToLL( toUString( a.getValue( i ) ) ) : otherwise;\n   }\n\n   bool isAttributeDefined("),
     (XPD, """      if ( isAttributeDefined( attributes, att_minimum ) )
      {
         ustring minimum_str = lookupAttribute( attributes, att_minimum );

         pi.minimum = convertStrToLL( minimum_str );
      }
      else
      {
         // Not defined defined in XML, so defaults to E57_INT64_MIN
         pi.minimum = INT64_MIN;
      }
""", "      pi.minimum = integerOr( attributes, att_minimum, INT64_MIN );\n"))
same('P15,P16', 'field name by condition', (IND, """      ustring fieldName;
      if ( forcedFieldName != nullptr )
      {
         fieldName = forcedFieldName;
      }
      else
      {
         fieldName = elementName_;
      }
""", "      const ustring fieldName = ( forcedFieldName != nullptr ) ? ustring( forcedFieldName ) : elementName_;\n"))
same('P15,P16', 'attributes in another order', (SID, """      if ( scale_ != 1.0 )
      {
         cf << " scale=\\"" << scale_ << "\\"";
      }
      if ( offset_ != 0.0 )
      {
         cf << " offset=\\"" << offset_ << "\\"";
      }
""", """      if ( offset_ != 0.0 )
      {
         cf << " offset=\\"";
         cf << offset_ << "\\"";
      }
      if ( !( scale_ == 1.0 ) )
      {
         cf << " scale=\\"" << scale_ << "\\"";
      }
"""))
same('P15,P16', 'all attributes written', (IND, "      if ( minimum_ != INT64_MIN )\n", ""))
same('P15,P16', 'precision always written', (FND, "         // Don't need to write precision=\"double\", because that's the default\n", "         cf << \" precision=\\\"double\\\"\";\n"))
same('P15,P16', 'whole element in one string', (BN, """      cf << space( indent ) << "<" << fieldName << " type=\\"Blob\\" fileOffset=\\"" << physicalOffset
         << "\\" length=\\"" << blobLogicalLength_ << "\\"/>\\n";""", """      const ustring head = space( indent ) + "<" + fieldName + " type=\\"Blob\\"";
      cf << head << " length=\\"" << blobLogicalLength_;
      cf << "\\" fileOffset=\\"" << physicalOffset << "\\"></" << fieldName << ">\\n";"""))
same('P15,P16', 'type dispatch by early return', (XPD, """      pi.nodeType = TypeString;

      stack_.push( pi );
   }
   else if ( node_type == "Blob" )""", """      pi.nodeType = TypeString;

      stack_.push( pi );
      return;
   }
   if ( node_type == "Blob" )"""))
same('P15,P16', 'string element by pieces', (ST, """            cf << value_.substr( currentPosition, found - currentPosition + 2 );

            // Then start a new CDATA
            cf << "]]><![CDATA[";
""", """            const ustring piece = value_.substr( currentPosition, found + 2 - currentPosition );
            cf << piece << "]]>" << "<![CDATA[";
"""))
bug('P16', 'unknown type as string', (XPD, """   else
   {
      throw E57_EXCEPTION2( ErrorBadXMLFormat,
                            "nodeType=" + node_type""", """   else if ( node_type != "Node" )
   {
      throw E57_EXCEPTION2( ErrorBadXMLFormat,
                            "nodeType=" + node_type"""))
bug('P16', 'lookup gives empty', (XPD, """         throw E57_EXCEPTION2( ErrorBadXMLFormat, "attributeName=" + toUString( attribute_name ) );""", "         return ustring();"))
bug('P16', 'length optional', (XPD, "      ustring length_str = lookupAttribute( attributes, att_length );\n", "      ustring length_str = isAttributeDefined( attributes, att_length ) ? lookupAttribute( attributes, att_length ) : ustring( \"0\" );\n"))
bug('P16', 'record count optional', (XPD, "      ustring recordCount_str = lookupAttribute( attributes, att_recordCount );\n", "      ustring recordCount_str;\n      if ( isAttributeDefined( attributes, att_recordCount ) )\n         recordCount_str = lookupAttribute( attributes, att_recordCount );\n"))
bug('P16', 'precision else double', (XPD, """         else if ( precision_str == "double" )
         {
            pi.precision = PrecisionDouble;
         }
         else
         {""", """         else if ( precision_str != "half" )
         {
            pi.precision = PrecisionDouble;
         }
         else
         {"""))
bug('P16', 'hetero not zero', (XPD, "else if ( i64 == 1 )", "else if ( i64 >= 1 )"))
bug('P16', 'text in vector ignored', (XPD, "      case TypeStructure:\n      case TypeVector:\n      case TypeCompressedVector:\n      case TypeBlob:\n", "      case TypeVector:\n         break;\n      case TypeStructure:\n      case TypeCompressedVector:\n      case TypeBlob:\n"))
bug('P16', 'blob text kept', (XPD, "      case TypeCompressedVector:\n      case TypeBlob:\n", "      case TypeCompressedVector:\n"))
bug('P16', 'only leading text looked at', (XPD, "if ( s.find_first_not_of( \" \\t\\n\\r\" ) != std::string::npos )", "if ( s.find_first_not_of( \" \\t\\n\\r\" ) == 0 )"))
bug('P16', 'child of leaf dropped', (XPD, """   if ( !parent_ni )
   {
      throw E57_EXCEPTION2( ErrorBadXMLFormat, "fileName=" """, """   if ( !parent_ni )
   {
      return;
      throw E57_EXCEPTION2( ErrorBadXMLFormat, "fileName=" """))
bug('P16', 'root kind not tested', (XPD, "if ( current_ni->type() != TypeStructure )", "if ( current_ni->type() == TypeInteger )"))
bug('P14', 'codecs kind not tested', (XPD, "            if ( current_ni->type() != TypeVector )", "            if ( current_ni->type() == TypeString )"))
bug('P16', 'codecs homogeneous', (XPD, "if ( !vi->allowHeteroChildren() )", "if ( vi->allowHeteroChildren() && false )"))
bug('P16', 'unknown child of compressed vector', (XPD, "            // Found unknown XML child element of CompressedVector, not prototype or codecs\n", "            return;\n"))
bug('P16', 'no default name space', (XPD, "if ( !gotDefault )", "if ( !gotDefault && attributes.getLength() > 2 )"))
bug('P16', 'error ignored', (XPD, "void E57XmlParser::error( const SAXParseException &ex )\n{\n", "void E57XmlParser::error( const SAXParseException &ex )\n{\n   if ( ex.getLineNumber() == 0 )\n   {\n      return;\n   }\n"))
bug('P16', 'fatal error code', (XPD, """void E57XmlParser::fatalError( const SAXParseException &ex )
{
   throw E57_EXCEPTION2(
      ErrorXMLParser""", """void E57XmlParser::fatalError( const SAXParseException &ex )
{
   throw E57_EXCEPTION2(
      ErrorInternal"""))
bug('P16', 'error handler not registered', (XPD, "   xmlReader->setErrorHandler( this );\n", ""))
bug('P16', 'parse swallows', (XPD, "   xmlReader->parse( inputSource );\n", "   try\n   {\n      xmlReader->parse( inputSource );\n   }\n   catch ( ... )\n   {\n   }\n"))
bug('P16', 'text refused with another code', (XPD, "throw E57_EXCEPTION2( ErrorBadXMLFormat, \"chars=\" + toUString( chars ) );", "throw E57_EXCEPTION2( ErrorXMLParser, \"chars=\" + toUString( chars ) );"))
same('P15,P16', 'text test by loop', (XPD, "         if ( s.find_first_not_of( \" \\t\\n\\r\" ) != std::string::npos )\n", "         bool blank = true;\n         for ( char ch : s )\n         {\n            if ( ch != ' ' && ch != '\\t' && ch != '\\n' && ch != '\\r' )\n            {\n               blank = false;\n            }\n         }\n         if ( !blank )\n"))
same('P15,P16', 'parent test merged', (XPD, "   if ( !parent_ni )\n   {\n      throw E57_EXCEPTION2( ErrorBadXMLFormat, \"fileName=\"", "   if ( parent_ni == nullptr )\n   {\n      throw E57_EXCEPTION2( ErrorBadXMLFormat, \"no container fileName=\""))
same('P15,P16', 'precision by ternary', (XPD, """         if ( precision_str == "single" )
         {
            pi.precision = PrecisionSingle;
         }
         else if ( precision_str == "double" )
         {
            pi.precision = PrecisionDouble;
         }
         else
         {""", """         const bool isSingle = precision_str.compare( "single" ) == 0;
         pi.precision = isSingle ? PrecisionSingle : PrecisionDouble;
         if ( !isSingle && precision_str != "double" )
         {"""))
same('P15,P16', 'stack reference', (XPD, "   ParseInfo pi = stack_.top(); //??? really want to make a copy here?\n   stack_.pop();", "   const ParseInfo pi( stack_.top() );\n   stack_.pop();"))

SF = 'src/StringFunctions.cpp'
SFH = 'src/StringFunctions.h'
bug('P17', 'double text follows locale', (SF, "      ss.imbue( std::locale::classic() );\n", ""))
bug('P17', 'double text in current locale', (SF, "      ss.imbue( std::locale::classic() );\n", "      ss.imbue( std::locale() );\n"))
bug('P17', 'double text classic when small', (SF, "      ss.imbue( std::locale::classic() );\n", "      if ( precision < 10 )\n      {\n         ss.imbue( std::locale::classic() );\n      }\n"))
bug('P17', 'double text imbued late', (SF, "      ss.imbue( std::locale::classic() );\n\n      ss << std::scientific << std::setprecision( precision ) << value;\n", "      ss << std::scientific << std::setprecision( precision ) << value;\n      ss.imbue( std::locale::classic() );\n"))
bug('P17', 'double read follows locale', (SF, "      iss.imbue( std::locale::classic() );\n", ""))
bug('P17', 'double read by stod', (SF, "      iss >> res;\n", "      res = std::strtod( inStr.c_str(), nullptr );\n"))
bug('P17', 'double by printf', (SF, "      ss << std::scientific << std::setprecision( precision ) << value;\n", "      char buf[64];\n      std::snprintf( buf, sizeof( buf ), \"%.*e\", precision, static_cast<double>( value ) );\n      ss << buf;\n"), (SF, '#include "StringFunctions.h"\n', '#include "StringFunctions.h"\n#include <cstdio>\n'))
bug('P17', 'integer text follows locale', (CF, "   std::stringstream ss;\n   ss.imbue( std::locale::classic() );\n   ss << i;", "   std::stringstream ss;\n   ss << i;"))
bug('P17', 'process locale', (SF, "      std::istringstream iss{ inStr };\n", "      const std::locale old = std::locale::global( std::locale::classic() );\n      std::istringstream iss{ inStr };\n"))
bug('P17', 'single by to_string', (CF, "   return writeFloatingPoint( f, 8 );", "   return ( f == std::floor( f ) && f < 1e6F && f > -1e6F ) ? ( *this << std::to_string( f ) ) : writeFloatingPoint( f, 8 );"))
same('P17', 'integer by to_string', (CF, "   std::stringstream ss;\n   ss.imbue( std::locale::classic() );\n   ss << i;\n   return ( *this << ss.str() );", "   return ( *this << std::to_string( i ) );"))
same('P17', 'helper makes classic', (SF, "namespace e57\n{\n", "namespace\n{\n   void makeClassic( std::ios &s )\n   {\n      s.imbue( std::locale::classic() );\n   }\n}\n\nnamespace e57\n{\n"), (SF, "      ss.imbue( std::locale::classic() );\n", "      makeClassic( ss );\n"), (SF, "      iss.imbue( std::locale::classic() );\n", "      const std::locale plain( \"C\" );\n      iss.imbue( plain );\n"))
same('P17', 'ostringstream and reference', (SF, "      std::stringstream ss;\n      ss.imbue( std::locale::classic() );\n\n      ss << std::scientific", "      std::ostringstream ss;\n      std::ostream &out = ss;\n      out.imbue( std::locale::classic() );\n\n      out << std::scientific"))

bug('P07', 'handle kept when size is wrong', (CF, "            if ( physicalLength_ % 1024 != 0 )\n            {\n", "            if ( physicalLength_ == 0 )\n            {\n               readOnly_ = false;\n               fd_ = -1;\n            }\n            if ( physicalLength_ % 1024 != 0 )\n            {\n"))
bug('P07', 'handle kept by constructor', (CF, "            // The destructor won't run\n            close();\n            throw;\n", "            throw;\n"))
bug('P07', 'open checks after opening', (CF, "   if ( fd < 0 )\n   {\n      throw E57_EXCEPTION2( ErrorOpenFailed,", "   struct stat info;\n   if ( fd < 0 || ::fstat( fd, &info ) != 0 )\n   {\n      throw E57_EXCEPTION2( ErrorOpenFailed,"))
bug('P07', 'view allocated before size check', (CF, """   if ( size % 1024 != 0 )
   {
      throw E57_EXCEPTION2( ErrorBadInputDataSize,
                            "buffer length is " + toString( size ) + " bytes" );
   }

   bufView_ = new BufferView( input, size );
""", """   bufView_ = new BufferView( input, size );

   if ( size % 1024 != 0 )
   {
      throw E57_EXCEPTION2( ErrorBadInputDataSize,
                            "buffer length is " + toString( size ) + " bytes" );
   }
"""))
bug('P07', 'view not deleted', (CF, "      delete bufView_;\n      bufView_ = nullptr;\n", "      bufView_ = nullptr;\n"))
bug('P07', 'view dangling', (CF, "      delete bufView_;\n      bufView_ = nullptr;\n", "      delete bufView_;\n"))
bug('P07', 'close forgets handle', (CF, "      // Whatever the result, the descriptor must not be closed again\n      fd_ = -1;\n", ""))
bug('P07', 'file not deleted by cancel', (II, "      else\n      {\n         file_->close();\n      }\n\n      delete file_;\n      file_ = nullptr;", "      else\n      {\n         file_->close();\n      }\n\n      file_ = nullptr;"))
bug('P07', 'file deleted only by writers', (II, "         file_->close();\n      }\n\n      delete file_;\n      file_ = nullptr;\n   }\n\n   void ImageFileImpl::cancel()", "         file_->close();\n         delete file_;\n      }\n\n      file_ = nullptr;\n   }\n\n   void ImageFileImpl::cancel()"))
bug('P07', 'file lost when opening fails', (II, "         parser.parse( xmlSection );\n      }\n      catch ( ... )\n      {\n         delete file_;\n         file_ = nullptr;\n", "         parser.parse( xmlSection );\n      }\n      catch ( ... )\n      {\n         file_ = nullptr;\n"))
bug('P07', 'file dangling when opening fails', (II, "         parser.parse( xmlSection );\n      }\n      catch ( ... )\n      {\n         delete file_;\n         file_ = nullptr;\n", "         parser.parse( xmlSection );\n      }\n      catch ( ... )\n      {\n         delete file_;\n"))
bug('P07', 'reader not deleted', (XPD, "   delete xmlReader;\n\n   xmlReader = nullptr;", "   xmlReader = nullptr;"))
bug('P07', 'array not deleted', ('src/E57SimpleData.cpp', "      delete[] isTimeStampInvalid;\n", ""))
bug('P07', 'array deleted as object', ('src/E57SimpleData.cpp', "      delete[] columnIndex;\n", "      delete columnIndex;\n"))
bug('P07', 'array deleted twice', ('src/E57SimpleData.cpp', "      delete[] normalY;\n", "      delete[] normalX;\n"))
bug('P07', 'parent kept alive', ('src/NodeImpl.h', "NodeImplWeakPtr parent_;", "NodeImplSharedPtr parent_;"), ('src/NodeImpl.cpp', "   return parent_.expired();", "   return parent_ == nullptr;"), ('src/NodeImpl.cpp', "!parent_.expired() ||", "parent_ != nullptr ||"))

bug('P07', 'message leaks', (XPD, "\" parserMessage=\" + toUString( ex.getMessage() ) );", "\" parserMessage=\" + ustring( XMLString::transcode( ex.getMessage() ) ) );"))
bug('P07', 'cache released', (CR, "cache_.reset( new PacketReadCache( imf->file_, 32 ) );", "auto cache = new PacketReadCache( imf->file_, 32 );\n      if ( maxRecordCount_ > 0 )\n      {\n         cache_.reset( cache );\n      }"))
same('P07', 'file in local first', (II, "            file_ = new CheckedFile( fileName_, CheckedFile::Write, checksumPolicy );\n", "            CheckedFile *opened = new CheckedFile( fileName_, CheckedFile::Write, checksumPolicy );\n            file_ = opened;\n"))
same('P07', 'helper closes file', (II, "   void ImageFileImpl::cancel()\n   {\n", "   static void dispose( CheckedFile *&f )\n   {\n      delete f;\n      f = nullptr;\n   }\n\n   void ImageFileImpl::cancel()\n   {\n"), (II, "      else\n      {\n         file_->close();\n      }\n\n      delete file_;\n      file_ = nullptr;", "      else\n      {\n         file_->close();\n      }\n\n      dispose( file_ );"))
same('P07', 'view by unique pointer', (CF, "   bufView_ = new BufferView( input, size );\n", "   std::unique_ptr<BufferView> view( new BufferView( input, size ) );\n   bufView_ = view.release();\n"))
same('P07', 'swap before delete', (CF, "      delete bufView_;\n      bufView_ = nullptr;\n", "      BufferView *const old = bufView_;\n      bufView_ = nullptr;\n      delete old;\n"))
same('P07', 'delete without test', (CF, "   if ( bufView_ != nullptr )\n   {\n      delete bufView_;\n      bufView_ = nullptr;\n", "   {\n      delete bufView_;\n      bufView_ = nullptr;\n"))

# ---- P04
bug('P04', 'blob start not converted on read', (BL, "imf->file_->physicalToLogical( fileOffset );", "fileOffset;"))
bug('P04', 'blob start converted the wrong way', (BL, "imf->file_->physicalToLogical( fileOffset );", "imf->file_->logicalToPhysical( fileOffset );"))
bug('P04', 'blob attribute logical', (BL, "uint64_t physicalOffset = cf.logicalToPhysical( binarySectionLogicalStart_ );", "uint64_t physicalOffset = binarySectionLogicalStart_;"))
bug('P04', 'blob seek physical', (BL, "sizeof( BlobSectionHeader ) + start );\n      imf->file_->read(", "sizeof( BlobSectionHeader ) + start, CheckedFile::Physical );\n      imf->file_->read("))
bug('P04', 'points attribute logical', (CV, "uint64_t physicalStart = cf.logicalToPhysical( binarySectionLogicalStart_ );", "uint64_t physicalStart = binarySectionLogicalStart_;"))
bug('P04', 'points start not converted', (XP, "imf_->file_->physicalToLogical( pi.fileOffset ) );", "pi.fileOffset );"))
bug('P04', 'reader seeks physical', (CR, "imf->file_->seek( sectionLogicalStart, CheckedFile::Logical );", "imf->file_->seek( sectionLogicalStart, CheckedFile::Physical );"))
bug('P04', 'reader verifies with logical length', (CR, "sectionHeader.verify( imf->file_->length( CheckedFile::Physical ) );", "sectionHeader.verify( imf->file_->length( CheckedFile::Logical ) );"))
bug('P04', 'writer verifies with logical length', (CW, "header.verify( imf->file_->length( CheckedFile::Physical ) );", "header.verify( imf->file_->length() );"))
bug('P04', 'data offset not converted', (CR, "imf->file_->physicalToLogical( sectionHeader.dataPhysicalOffset );", "sectionHeader.dataPhysicalOffset;"))
bug('P04', 'data offset kept logical', (CW, "dataPhysicalOffset_ = packetPhysicalOffset;", "dataPhysicalOffset_ = packetLogicalOffset;"))
bug('P04', 'packet seek physical offset', (CW, "imf->file_->seek( packetLogicalOffset ); //???", "imf->file_->seek( packetPhysicalOffset ); //???"))
bug('P04', 'index offset logical', (CW, "topIndexPhysicalOffset_ = imf->file_->logicalToPhysical( packetLogicalOffset );", "topIndexPhysicalOffset_ = packetLogicalOffset;"))
bug('P04', 'header of section at physical', (CW, "imf->file_->seek( sectionHeaderLogicalStart_ );", "imf->file_->seek( sectionHeaderLogicalStart_, CheckedFile::Physical );"))
bug('P04', 'xml offset not converted', (II, "xmlLogicalOffset_ = file_->physicalToLogical( header.xmlPhysicalOffset );", "xmlLogicalOffset_ = header.xmlPhysicalOffset;"))
bug('P04', 'xml length mixed', (II, "xmlLogicalLength_ = file_->position( CheckedFile::Logical ) - xmlLogicalOffset_;", "xmlLogicalLength_ = file_->position( CheckedFile::Physical ) - xmlPhysicalOffset;"))
bug('P04', 'xml offset logical', (II, "uint64_t xmlPhysicalOffset = file_->position( CheckedFile::Physical );", "uint64_t xmlPhysicalOffset = file_->position( CheckedFile::Logical );"))
bug('P04', 'file length logical', (II, "header.filePhysicalLength = file_->length( CheckedFile::Physical );", "header.filePhysicalLength = file_->length( CheckedFile::Logical );"))
bug('P04', 'file length compared with logical', (II, "if ( header.filePhysicalLength != file->length( CheckedFile::Physical ) )", "if ( header.filePhysicalLength < file->length( CheckedFile::Logical ) )"))
bug('P04', 'space allocated physical', (II, "file_->extend( unusedLogicalStart_ );", "file_->extend( unusedLogicalStart_, CheckedFile::Physical );"))
bug('P04', 'cache seeks physical', (PK, "cFile_->seek( packetLogicalOffset, CheckedFile::Logical );", "cFile_->seek( packetLogicalOffset, CheckedFile::Physical );"))
bug('P04', 'xml stream seeks physical', (XP, "cf_->seek( logicalPosition_ );", "cf_->seek( logicalPosition_, CheckedFile::Physical );"))
bug('P04', 'seek modes swapped', (CF, "omode == Physical ? offset : logicalToPhysical( offset )", "omode == Logical ? offset : logicalToPhysical( offset )"))
bug('P04', 'seek converts back', (CF, "omode == Physical ? offset : logicalToPhysical( offset )", "omode == Physical ? offset : physicalToLogical( offset )"))
bug('P04', 'position unconverted', (CF, "   return physicalToLogical( pos );", "   return pos;"))
bug('P04', 'length of read file', (CF, "         return physicalLength_;", "         return logicalLength_;"))
bug('P04', 'extend ignores mode', (CF, "newLogicalLength = physicalToLogical( newLength );", "newLogicalLength = newLength;"))
bug('P04', 'logical length not converted', (CF, "logicalLength_ = physicalToLogical( physicalLength_ );", "logicalLength_ = physicalLength_;"))
bug('P04', 'conversion off by a page', ('src/CheckedFile.h', "const uint64_t page = logicalOffset / logicalPageSize;", "const uint64_t page = logicalOffset / physicalPageSize;"))
bug('P04', 'conversion narrow', ('src/CheckedFile.h', "const uint64_t page = physicalOffset >> physicalPageSizeLog2;", "const uint32_t page = static_cast<uint32_t>( physicalOffset ) >> physicalPageSizeLog2;"))
same('P04', 'conversion by remainder', ('src/CheckedFile.h', "const uint64_t remainder = logicalOffset - page * logicalPageSize;\n\n      return page * physicalPageSize + remainder;", "return ( page << physicalPageSizeLog2 ) + logicalOffset % logicalPageSize;"))
same('P04', 'conversion by gap', ('src/CheckedFile.h', "const uint64_t remainder = logicalOffset - page * logicalPageSize;\n\n      return page * physicalPageSize + remainder;", "return logicalOffset + page * ( physicalPageSize - logicalPageSize );"))
same('P04', 'conversion by branch', ('src/CheckedFile.h', "      return page * logicalPageSize + std::min( remainder, logicalPageSize );", "      if ( remainder > logicalPageSize )\n      {\n         return ( page + 1 ) * logicalPageSize;\n      }\n\n      return page * logicalPageSize + remainder;"))
same('P04', 'seek by branch', (CF, "   const auto pos =\n      static_cast<int64_t>( omode == Physical ? offset : logicalToPhysical( offset ) );", "   uint64_t where = offset;\n   if ( omode != Physical )\n   {\n      where = logicalToPhysical( where );\n   }\n   const auto pos = static_cast<int64_t>( where );"))
same('P04', 'helper seeks', (CW, "   void e57::CompressedVectorWriterImpl::packetWriteIndex()\n", "   static void goTo( CheckedFile &file, uint64_t where )\n   {\n      file.seek( file.logicalToPhysical( where ), CheckedFile::Physical );\n   }\n\n   void e57::CompressedVectorWriterImpl::packetWriteIndex()\n"), (CW, "      imf->file_->seek( packetLogicalOffset );\n      imf->file_->write( reinterpret_cast<const char *>( &indexPacket )", "      goTo( *imf->file_, packetLogicalOffset );\n      imf->file_->write( reinterpret_cast<const char *>( &indexPacket )"))
same('P04', 'reader by physical seek', (CR, "imf->file_->seek( sectionLogicalStart, CheckedFile::Logical );", "imf->file_->seek( imf->file_->logicalToPhysical( sectionLogicalStart ), CheckedFile::Physical );"))
same('P04', 'xml offset by conversion', (II, "uint64_t xmlPhysicalOffset = file_->position( CheckedFile::Physical );", "const uint64_t xmlPhysicalOffset = file_->logicalToPhysical( xmlLogicalOffset_ );"))
same('P04', 'offset in plain local', (BL, "      binarySectionLogicalStart_ = imf->file_->physicalToLogical( fileOffset );", "      uint64_t start = fileOffset;\n      start = imf->file_->physicalToLogical( start );\n      binarySectionLogicalStart_ = start;"))
bug('P04', 'helper seeks confused', (CW, "   void e57::CompressedVectorWriterImpl::packetWriteIndex()\n", "   static void goTo( CheckedFile &file, uint64_t where )\n   {\n      file.seek( where, CheckedFile::Physical );\n   }\n\n   void e57::CompressedVectorWriterImpl::packetWriteIndex()\n"), (CW, "      imf->file_->seek( packetLogicalOffset );\n      imf->file_->write( reinterpret_cast<const char *>( &indexPacket )", "      goTo( *imf->file_, packetLogicalOffset );\n      imf->file_->write( reinterpret_cast<const char *>( &indexPacket )"))

# ---- names
def names(title, *ns):
    same('', 'names ' + title, *[('*', n, 'm' + n[0].upper() + n[1:].rstrip('_') if n.endswith('_') else 'do' + n[0].upper() + n[1:]) for n in ns])


names('coders', 'currentRecordIndex_', 'isScaledInteger_', 'bytestreamNumber_', 'maxRecordCount_', 'sourceBuffer_', 'destBuffer_', 'currentString_', 'register_', 'registerBitsUsed_', 'outBuffer_', 'outBufferFirst_', 'outBufferEnd_', 'inBuffer_', 'inBufferFirstBit_', 'inBufferEndByte_', 'bitsPerRecord_', 'destBitMask_', 'sourceBitMask_', 'prefixBytes_', 'stringLength_', 'totalBytesProcessed_', 'isStringActive_', 'prefixComplete_', 'nBytesStringRead_')
names('nodes', 'minimum_', 'maximum_', 'scale_', 'offset_', 'value_', 'precision_', 'children_', 'elementName_', 'parent_', 'isAttached_', 'destImageFile_', 'prototype_', 'codecs_', 'allowHeteroChildren_', 'recordCount_', 'blobLogicalLength_')
names('files', 'fd_', 'file_', 'bufView_', 'readOnly_', 'fileName_', 'isWriter_', 'writerCount_', 'readerCount_', 'root_', 'nameSpaces_', 'checkSumPolicy_', 'cf_')
names('lengths', 'logicalLength_', 'physicalLength_', 'unusedLogicalStart_', 'xmlLogicalOffset_', 'xmlLogicalLength_')
names('buffers', 'nextIndex_', 'capacity_', 'base_', 'stride_', 'ustrings_', 'doConversion_', 'doScaling_', 'memoryRepresentation_', 'pathName_')
names('transfer', 'isOpen_', 'cache_', 'channels_', 'bytestreams_', 'sbufs_', 'dbufs_', 'proto_', 'cVector_', 'dataPacket_', 'dataPhysicalOffset_', 'topIndexPhysicalOffset_', 'sectionEndLogicalOffset_', 'sectionHeaderLogicalStart_', 'sectionLogicalLength_', 'dataPacketsCount_', 'entries_', 'lockCount_', 'useCount_', 'lastUsed_', 'cFile_', 'buffer_', 'logicalOffset_')
names('pages', 'getCurrentPageAndOffset', 'readPhysicalPage', 'writePhysicalPage', 'verifyChecksum')
names('conversions', 'logicalToPhysical', 'physicalToLogical')
names('image calls', 'allocateSpace', 'incrWriterCount', 'decrWriterCount', 'incrReaderCount', 'decrReaderCount', 'readFileHeader', 'checkImageFileOpen', 'elementNameParse', 'pathNameCheckWellFormed', 'pathNameParse')
names('node calls', 'setAttachedRecursive', 'checkLeavesInSet', 'verifyPathNameAbsolute', 'setParent', 'isTypeEquivalent', 'isTypeConstrained', 'findTerminalPosition', 'getRoot', 'verifyAncestor')
names('writer calls', 'packetWrite', 'packetWriteIndex', 'currentPacketSize', 'packetWriteZeroRecords', 'setBuffers', 'checkWriterOpen')
names('reader calls', 'checkReaderOpen', 'earliestPacketNeededForInput', 'feedPacketToDecoders', 'findNextDataPacket', 'totalBytesAvailable', 'isBlocked', 'isInputBlocked', 'isOutputBlocked')
names('coder calls', 'processRecords', 'outputAvailable', 'outputRead', 'registerFlushToOutput', 'inputProcess', 'inputProcessAligned', 'inBufferShiftDown', 'outBufferShiftDown', 'inputFinished', 'destBufferSetNew', 'stateReset')
names('buffer calls', 'setNextInt64', 'getNextInt64', 'setNextDouble', 'getNextDouble', 'setNextFloat', 'getNextFloat', 'setNextString', 'getNextString', 'checkCompatible', 'rewind')
names('xml calls', 'writeXml', 'lookupAttribute', 'isAttributeDefined', 'toUString', 'convertStrToLL', 'floatingPointToStr')
names('cache calls', 'readPacket', 'flush', 'verify')

# ---- P36, P37
IFI, NIMP = 'src/ImageFileImpl.cpp', 'src/NodeImpl.cpp'
bug('P36', 'shared page buffer', (CF, "   std::vector<char> page_buffer_v( physicalPageSize );", "   static std::vector<char> page_buffer_v( physicalPageSize );"))
bug('P36', 'shared count', (IFI, "   void ImageFileImpl::incrWriterCount()\n   {\n", "   static int openWriters = 0;\n\n   void ImageFileImpl::incrWriterCount()\n   {\n      ++openWriters;\n"))
bug('P36', 'shared last packet', ('src/Packet.cpp', "#include \"Packet.h\"", "#include \"Packet.h\"\nstatic uint64_t lastOffset;"), ('src/Packet.cpp', "   cFile_->seek( packetLogicalOffset, CheckedFile::Logical );", "   lastOffset = packetLogicalOffset;\n   cFile_->seek( packetLogicalOffset, CheckedFile::Logical );"))
bug('P36', 'locale set while parsing', (XP, "      XMLPlatformUtils::Initialize();", "      setlocale( LC_ALL, \"C\" );\n      XMLPlatformUtils::Initialize();"), (XP, "#include <limits>", "#include <clocale>\n#include <limits>"))
bug('P36', 'platform not shut down', (XP, "   XMLPlatformUtils::Terminate();", "   if ( !imf_ )\n   {\n      XMLPlatformUtils::Terminate();\n   }"))
bug('P36', 'platform shut down twice', (XP, "   xmlReader->parse( inputSource );", "   xmlReader->parse( inputSource );\n   XMLPlatformUtils::Terminate();"))
bug('P36', 'static map of prefixes', (IFI, "      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );\n\n      // Linear search for matching prefix\n", "      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );\n      static ustring last;\n      last = prefix;\n"))
bug('P36', 'cout precision', ('src/FloatNodeImpl.cpp', "      // don't checkImageFileOpen\n", "      // don't checkImageFileOpen\n      std::cout.precision( 17 );\n"), ('src/FloatNodeImpl.cpp', "#include \"FloatNodeImpl.h\"", "#include <iostream>\n#include \"FloatNodeImpl.h\""))
same('P36 P37', 'static constant table', (IFI, "   void ImageFileImpl::incrWriterCount()\n   {\n", "   static const char *const names[] = { \"r\", \"w\" };\n\n   void ImageFileImpl::incrWriterCount()\n   {\n      static const size_t n = sizeof( names ) / sizeof( names[0] );\n      if ( n != 2 )\n      {\n         return;\n      }\n"))
bug('P37', 'count repairs', ('src/StructureNodeImpl.cpp', "   return ( ni != nullptr );\n", "   if ( ni != nullptr )\n   {\n      ni->setAttachedRecursive();\n   }\n   return ( ni != nullptr );\n"))
bug('P37', 'look-up reorders', ('src/StructureNodeImpl.cpp', "   NodeImplSharedPtr ni( lookup( pathName ) );\n   return ( ni != nullptr );\n", "   NodeImplSharedPtr ni( lookup( pathName ) );\n   std::stable_sort( children_.begin(), children_.end() );\n   return ( ni != nullptr );\n"))
bug('P37', 'open query closes', ('src/CompressedVectorReaderImpl.cpp', "bool CompressedVectorReaderImpl::isOpen() const\n   {\n", "bool CompressedVectorReaderImpl::isOpen() const\n   {\n      const_cast<CompressedVectorReaderImpl *>( this )->isOpen_ = recordCount_ < maxRecordCount_;\n"))
same('P37', 'local accumulates', ('src/NodeImpl.cpp', "      return ( \"/\" + elementName_ );\n", "      ustring s;\n      s += \"/\";\n      s += elementName_;\n      return s;\n"))

# ---- more bugs for the properties with few of them
PAGE = "static_cast<size_t>( result ) != physicalPageSize )"
bug('P03', 'memory read clamped', (CF, "      if ( start > streamSize_ || count > streamSize_ - start )\n      {\n         throw E57_EXCEPTION2( ErrorReadFailed, \"pos=\" + toString( start ) +\n                                                   \" count=\" + toString( count ) +\n                                                   \" bufferSize=\" + toString( streamSize_ ) );\n      }\n", "      if ( start > streamSize_ || count > streamSize_ - start )\n      {\n         count = start > streamSize_ ? 0 : streamSize_ - start;\n      }\n"))
bug('P03', 'interrupted read ignored', (CF, "   if ( result < 0 || static_cast<size_t>( result ) != physicalPageSize )\n   {\n      throw E57_EXCEPTION2( ErrorReadFailed,", "   if ( result < 0 && errno == EINTR )\n   {\n      return;\n   }\n   if ( result < 0 || static_cast<size_t>( result ) != physicalPageSize )\n   {\n      throw E57_EXCEPTION2( ErrorReadFailed,"))
bug('P03', 'close of image swallows', (II, "         file_->write( reinterpret_cast<char *>( &header ), sizeof( header ) );\n\n         file_->close();", "         file_->write( reinterpret_cast<char *>( &header ), sizeof( header ) );\n\n         try\n         {\n            file_->close();\n         }\n         catch ( E57Exception & )\n         {\n         }"))
bug('P03', 'close left to destructor', (II, "         file_->write( reinterpret_cast<char *>( &header ), sizeof( header ) );\n\n         file_->close();\n", "         file_->write( reinterpret_cast<char *>( &header ), sizeof( header ) );\n"))
bug('P03', 'seek clamps view', (CF, "         cursorStream_ = streamSize_;\n         return false;", "         cursorStream_ = streamSize_;\n         return true;"))
bug('P08', 'unattached nodes not asked', (NO, "if ( !destImageFile || !destImageFile->isOpen() )", "if ( !destImageFile || ( isAttached_ && !destImageFile->isOpen() ) )"))
bug('P08', 'blob length', (BL, "      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );\n      return ( blobLogicalLength_ );", "      return ( blobLogicalLength_ );"))
bug('P08', 'extension count', (II, "   size_t ImageFileImpl::extensionsCount() const\n   {\n      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );\n", "   size_t ImageFileImpl::extensionsCount() const\n   {\n"))
bug('P08', 'root kept', (II, "   std::shared_ptr<StructureNodeImpl> ImageFileImpl::root()\n   {\n      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );\n", "   std::shared_ptr<StructureNodeImpl> ImageFileImpl::root()\n   {\n      if ( root_ == nullptr )\n      {\n         checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );\n      }\n"))
bug('P08', 'parent shortcut', (NO, "   checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );\n\n   return elementName_;", "   if ( !elementName_.empty() )\n   {\n      return elementName_;\n   }\n   checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );\n\n   return elementName_;"))
bug('P10', 'reader destructor outside', (RI, "      if ( isOpen_ )\n      {\n         try\n         {\n            close(); //??? what if already closed?", "      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );\n      if ( isOpen_ )\n      {\n         try\n         {\n            close(); //??? what if already closed?"))
bug('P10', 'writer destructor one kind', (WI, "            close();\n         }\n      }\n      catch ( ... )", "            close();\n         }\n      }\n      catch ( std::bad_alloc & )"))
bug('P10', 'image destructor reports', (II, "         cancel();\n      }\n      catch ( ... )\n      {\n      };", "         cancel();\n      }\n      catch ( ... )\n      {\n         if ( writerCount_ > 0 )\n            throw E57_EXCEPTION1( ErrorInternal );\n      };"))
bug('P10', 'file destructor asks length', (CF, "CheckedFile::~CheckedFile()\n{\n", "CheckedFile::~CheckedFile()\n{\n   if ( !readOnly_ && fd_ >= 0 )\n   {\n      physicalLength_ = length( Physical );\n   }\n"))
bug('P13', 'float single as float', (FN, "      if ( value_ < minimum_ || value_ > maximum_ )\n", "      if ( precision_ == PrecisionDouble && ( value_ < minimum_ || value_ > maximum_ ) )\n"))
bug('P13', 'int constructor swapped', ('src/ScaledIntegerNode.cpp', "   impl_( new ScaledIntegerNodeImpl( destImageFile.impl(), static_cast<int64_t>( rawValue ),\n                                     minimum, maximum, scale, offset ) )", "   impl_( new ScaledIntegerNodeImpl( destImageFile.impl(), static_cast<int64_t>( rawValue ),\n                                     maximum, minimum, scale, offset ) )"))
bug('P13', 'scaled value clamped in test', (SI, "if ( value_ < minimum_ || value_ > maximum_ )", "if ( value_ * scale_ < minimum_ || value_ > maximum_ )"))
bug('P13', 'float tolerance', (FN, "      if ( value_ < minimum_ || value_ > maximum_ )\n", "      if ( value_ < minimum_ - 1e-9 || value_ > maximum_ )\n"))
bug('P14', 'float or scaled', ('src/FloatNode.cpp', "if ( n.type() != TypeFloat )", "if ( n.type() != TypeFloat && n.type() != TypeScaledInteger )"))
bug('P14', 'vector accepts structure', ('src/StructureNode.cpp', "if ( n.type() != TypeStructure )", "if ( n.type() != TypeStructure && n.type() != TypeVector )"))
bug('P14', 'code of downcast', ('src/BlobNode.cpp', "throw E57_EXCEPTION2( ErrorBadNodeDowncast,", "throw E57_EXCEPTION2( ErrorBadAPIArgument,"))
bug('P14', 'blob equivalence unasked', (BL, "      if ( ni->type() != TypeBlob )\n      {\n         return ( false );\n      }\n", "      if ( ni->isRoot() && ni->type() != TypeBlob )\n      {\n         return ( false );\n      }\n"))
bug('P29', 'new code', ('include/E57Exception.h', "errorCode_( ecode )", "errorCode_( ecode == ErrorInternal ? Success : ecode )"))
bug('P29', 'line lost', ('include/E57Exception.h', "sourceLineNumber_( srcLineNumber )", "sourceLineNumber_( srcLineNumber & 0xfff )"))
bug('P30', 'parse errors dropped', (II, "         // Do the parse, building up the node tree\n         parser.parse( xmlSection );\n      }\n      catch ( ... )\n      {\n         delete file_;\n         file_ = nullptr;\n\n         throw;\n      }\n   }\n\n   std::shared_ptr", "         // Do the parse, building up the node tree\n         parser.parse( xmlSection );\n      }\n      catch ( E57Exception &ex )\n      {\n         if ( ex.errorCode() == ErrorXMLParser )\n         {\n            return;\n         }\n         delete file_;\n         file_ = nullptr;\n\n         throw;\n      }\n   }\n\n   std::shared_ptr"))
bug('P30', 'bad path answered', (II, "      catch ( E57Exception & /*ex*/ )\n      {\n         return false;\n      }\n\n      // If get here, the name was good\n      return true;", "      catch ( E57Exception & /*ex*/ )\n      {\n      }\n\n      // If get here, the name was good\n      return true;"))
bug('P32', 'blob write wraps', (BL, "      if ( start < 0 || static_cast<uint64_t>( start ) > blobLogicalLength_ ||\n           count > blobLogicalLength_ - static_cast<uint64_t>( start ) )\n      {\n         throw E57_EXCEPTION2( ErrorBadAPIArgument,\n                               \"this->pathName=\" + this->pathName() +\n                                  \" start=\" + toString( start ) + \" count=\" + toString( count ) +\n                                  \" length=\" + toString( blobLogicalLength_ ) );\n      }\n\n      ImageFileImplSharedPtr imf( destImageFile_ );\n      imf->file_->seek( binarySectionLogicalStart_ + sizeof( BlobSectionHeader ) + start );\n      imf->file_->write", "      if ( static_cast<uint64_t>( start ) + count > blobLogicalLength_ )\n      {\n         throw E57_EXCEPTION2( ErrorBadAPIArgument,\n                               \"this->pathName=\" + this->pathName() +\n                                  \" start=\" + toString( start ) + \" count=\" + toString( count ) +\n                                  \" length=\" + toString( blobLogicalLength_ ) );\n      }\n\n      ImageFileImplSharedPtr imf( destImageFile_ );\n      imf->file_->seek( binarySectionLogicalStart_ + sizeof( BlobSectionHeader ) + start );\n      imf->file_->write"))
bug('P32', 'blob count clamped', (BL, "      imf->file_->read( reinterpret_cast<char *>( buf ),\n                        static_cast<size_t>( count ) ); //??? arg1 void* ?", "      imf->file_->read( reinterpret_cast<char *>( buf ),\n                        std::min<size_t>( count, 65536 ) );"))
bug('P32', 'blob length narrow', (BL, "blobLogicalLength_ = byteCount;", "blobLogicalLength_ = static_cast<uint32_t>( byteCount );"))
bug('P32', 'public read shifted', ('src/BlobNode.cpp', "impl_->read( buf, start, count );", "impl_->read( buf, start > 0 ? start : 0, count );"))
same('P03,P01,P02', 'interrupted calls repeated', (CF, "   ssize_t result = ::read( fd_, page_buffer, physicalPageSize );", "   ssize_t result = 0;\n   do\n   {\n      result = ::read( fd_, page_buffer, physicalPageSize );\n   } while ( result < 0 && errno == EINTR );"), (CF, "   ssize_t result = ::write( fd_, page_buffer, physicalPageSize );", "   ssize_t result = 0;\n   do\n   {\n      result = ::write( fd_, page_buffer, physicalPageSize );\n   } while ( result < 0 && errno == EINTR );"))
same('P01,P02,P03,P06', 'page positions by helper', (CF, "void CheckedFile::readPhysicalPage( char *page_buffer, uint64_t page )\n{\n", "static uint64_t pageStart( uint64_t page )\n{\n   return page * CheckedFile::physicalPageSize;\n}\n\nvoid CheckedFile::readPhysicalPage( char *page_buffer, uint64_t page )\n{\n"), (CF, "   // Seek to start of physical page\n   seek( page * physicalPageSize, Physical );\n\n   if ( (", "   const uint64_t start = pageStart( page );\n   seek( start, Physical );\n\n   if ( ("), (CF, "   // Seek to start of physical page\n   seek( page * physicalPageSize, Physical );\n\n#if", "   const uint64_t start = pageStart( page );\n   seek( start, Physical );\n\n#if"))
same('P32,P08,P05', 'blob range helper', (BL, "   void BlobNodeImpl::read( uint8_t *buf, int64_t start, size_t count )\n", "   static bool inBlob( int64_t start, size_t count, uint64_t length )\n   {\n      if ( start < 0 )\n      {\n         return false;\n      }\n      const auto first = static_cast<uint64_t>( start );\n      return first <= length && count <= length - first;\n   }\n\n   void BlobNodeImpl::read( uint8_t *buf, int64_t start, size_t count )\n"), (BL, "if ( start < 0 || static_cast<uint64_t>( start ) > blobLogicalLength_ ||\n           count > blobLogicalLength_ - static_cast<uint64_t>( start ) )", "if ( !inBlob( start, count, blobLogicalLength_ ) )"))
same('P13', 'bounds inverted', (FN, "      if ( value_ < minimum_ || value_ > maximum_ )\n", "      const bool below = value_ < minimum_;\n      const bool above = maximum_ < value_;\n      if ( below || above )\n"))
bug('P37', 'prototype attached', (CV, "      return ( prototype_ ); //??? check defined", "      prototype_->setAttachedRecursive();\n      return ( prototype_ ); //??? check defined"))
bug('P37', 'child by index attached', (SN, "   return ( children_.at( static_cast<unsigned>( index ) ) );", "   children_.at( static_cast<unsigned>( index ) )->setAttachedRecursive();\n   return ( children_.at( static_cast<unsigned>( index ) ) );"))
bug('P37', 'uri look-up registers', (II, "   bool ImageFileImpl::extensionsLookupPrefix( const ustring &prefix, ustring &uri ) const\n   {\n      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );\n", "   bool ImageFileImpl::extensionsLookupPrefix( const ustring &prefix, ustring &uri ) const\n   {\n      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );\n      if ( prefix.empty() )\n      {\n         const_cast<ImageFileImpl *>( this )->nameSpaces_.clear();\n      }\n"))
same('P37,P36,P11', 'count by distance', (SN, "   return children_.size();\n", "   int64_t count = 0;\n   for ( const auto &child : children_ )\n   {\n      static_cast<void>( child );\n      ++count;\n   }\n   return count;\n"))
bug('P19', 'long text length', ('src/Decoder.cpp', "prefixBytes_[4] ) << ( 4 * 8 - 1 )", "prefixBytes_[4] ) << ( 3 * 8 - 1 )"))
same('P18,P19', 'text length by loop', ('src/Decoder.cpp', """               stringLength_ = ( static_cast<uint64_t>( prefixBytes_[0] ) >> 1 ) +
                               ( static_cast<uint64_t>( prefixBytes_[1] ) << ( 1 * 8 - 1 ) ) +
                               ( static_cast<uint64_t>( prefixBytes_[2] ) << ( 2 * 8 - 1 ) ) +
                               ( static_cast<uint64_t>( prefixBytes_[3] ) << ( 3 * 8 - 1 ) ) +
                               ( static_cast<uint64_t>( prefixBytes_[4] ) << ( 4 * 8 - 1 ) ) +
                               ( static_cast<uint64_t>( prefixBytes_[5] ) << ( 5 * 8 - 1 ) ) +
                               ( static_cast<uint64_t>( prefixBytes_[6] ) << ( 6 * 8 - 1 ) ) +
                               ( static_cast<uint64_t>( prefixBytes_[7] ) << ( 7 * 8 - 1 ) );
""", """               uint64_t word = 0;
               for ( size_t i = 0; i < 8; ++i )
               {
                  word |= static_cast<uint64_t>( prefixBytes_[i] ) << ( 8 * i );
               }
               stringLength_ = word >> 1;
"""))
