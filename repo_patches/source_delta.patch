From 0eb375bc88776278991874c00bfb92f1150ba93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:52 +0000
Subject: [PATCH 01/37] fix: count a reader or writer out only once when it is
 closed twice

close() lowered the image file's reader or writer count before looking at
whether the object was still open, so a second close() made the count
negative.
---
 src/CompressedVectorReaderImpl.cpp | 10 ++++------
 src/CompressedVectorWriterImpl.cpp | 13 +++++++------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index 21eed23..4d8b844 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -565,18 +565,16 @@ namespace e57
 
    void CompressedVectorReaderImpl::close()
    {
-      // Before anything that can throw, decrement reader count
-      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
-      imf->decrReaderCount();
-
-      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
-
       // No error if reader not open
       if ( !isOpen_ )
       {
          return;
       }
 
+      // Before anything that can throw, decrement reader count
+      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
+      imf->decrReaderCount();
+
       // Destroy decoders
       channels_.clear();
 
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 7099adf..8d90cd3 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -155,12 +155,6 @@ namespace e57
 #ifdef E57_VERBOSE
       std::cout << "CompressedVectorWriterImpl::close() called" << std::endl; //???
 #endif
-      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
-
-      // Before anything that can throw, decrement writer count
-      imf->decrWriterCount();
-
-      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
       // don't call checkWriterOpen();
 
       if ( !isOpen_ )
@@ -172,6 +166,13 @@ namespace e57
       // try to close again.
       isOpen_ = false;
 
+      ImageFileImplSharedPtr imf( cVector_->destImageFile_ );
+
+      // Before anything that can throw, decrement writer count
+      imf->decrWriterCount();
+
+      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
+
       // If have any data, write packet
       // Write all remaining ioBuffers and internal encoder register cache into
       // file. Know we are done when totalOutputAvailable() returns 0 after a
-- 
2.43.0


From e419edce76126d07121cc192318965086bae8a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:52 +0000
Subject: [PATCH 02/37] fix: refuse to read or write records after the image
 file was closed

The open checks of the CompressedVector reader and writer were empty, so a
read() or write() after ImageFile::close() used a deleted file object
instead of throwing ErrorImageFileNotOpen.
---
 src/CompressedVectorReaderImpl.cpp | 5 +----
 src/CompressedVectorWriterImpl.cpp | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index 4d8b844..b4cd846 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -587,10 +587,7 @@ namespace e57
    void CompressedVectorReaderImpl::checkImageFileOpen( const char *srcFileName, int srcLineNumber,
                                                         const char *srcFunctionName ) const
    {
-      // unimplemented...
-      E57_UNUSED( srcFileName );
-      E57_UNUSED( srcLineNumber );
-      E57_UNUSED( srcFunctionName );
+      cVector_->checkImageFileOpen( srcFileName, srcLineNumber, srcFunctionName );
    }
 
    void CompressedVectorReaderImpl::checkReaderOpen( const char *srcFileName, int srcLineNumber,
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 8d90cd3..a107f62 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -698,10 +698,7 @@ namespace e57
    void CompressedVectorWriterImpl::checkImageFileOpen( const char *srcFileName, int srcLineNumber,
                                                         const char *srcFunctionName ) const
    {
-      // unimplemented...
-      E57_UNUSED( srcFileName );
-      E57_UNUSED( srcLineNumber );
-      E57_UNUSED( srcFunctionName );
+      cVector_->checkImageFileOpen( srcFileName, srcLineNumber, srcFunctionName );
    }
 
    void CompressedVectorWriterImpl::checkWriterOpen( const char *srcFileName, int srcLineNumber,
-- 
2.43.0


From 43c10e123fab4ab5c70bbb9952fbe275ce994454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:22 +0000
Subject: [PATCH 03/37] fix: use the buffers given to a later read() or write()

read(dbufs) and write(sbufs, n) checked and stored the new buffers, but the
decoders and encoders kept using the ones given when the reader or writer
was made.
---
 src/CompressedVectorReaderImpl.cpp |  9 +++++++++
 src/CompressedVectorWriterImpl.cpp | 15 +++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index b4cd846..bab8148 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -220,6 +220,15 @@ namespace e57
       }
 
       dbufs_ = dbufs;
+
+      // Let existing decoders deliver to the new buffers
+      for ( size_t i = 0; i < channels_.size(); i++ )
+      {
+         std::vector<SourceDestBuffer> theDbuf( 1, dbufs_[i] );
+
+         channels_[i].decoder->destBufferSetNew( theDbuf );
+         channels_[i].dbuf = dbufs_[i];
+      }
    }
 
    unsigned CompressedVectorReaderImpl::read( std::vector<SourceDestBuffer> &dbufs )
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index a107f62..c3df88f 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -271,6 +271,21 @@ namespace e57
       proto_->checkBuffers( sbufs, false );
 
       sbufs_ = sbufs;
+
+      // Let existing encoders take their records from the new buffers
+      for ( auto &bytestream : bytestreams_ )
+      {
+         for ( auto &sbuf : sbufs_ )
+         {
+            uint64_t bytestreamNumber = 0;
+            if ( proto_->findTerminalPosition( proto_->get( sbuf.pathName() ), bytestreamNumber ) &&
+                 bytestreamNumber == bytestream->bytestreamNumber() )
+            {
+               std::vector<SourceDestBuffer> theSbuf( 1, sbuf );
+               bytestream->sourceBufferSetNew( theSbuf );
+            }
+         }
+      }
    }
 
    void CompressedVectorWriterImpl::write( std::vector<SourceDestBuffer> &sbufs,
-- 
2.43.0


From cbc734f346b288b1bc5fd528d27f0d1480e9e07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:22 +0000
Subject: [PATCH 04/37] fix: free the packet cache when a reader cannot be
 constructed

The cache was a raw pointer, so it leaked when reading the first data packet
failed inside the constructor.
---
 src/CompressedVectorReaderImpl.cpp | 6 ++----
 src/CompressedVectorReaderImpl.h   | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index bab8148..4277200 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -132,8 +132,7 @@ namespace e57
       uint64_t dataLogicalOffset =
          imf->file_->physicalToLogical( sectionHeader.dataPhysicalOffset );
 
-      //??? what if fault in this constructor?
-      cache_ = new PacketReadCache( imf->file_, 32 );
+      cache_.reset( new PacketReadCache( imf->file_, 32 ) );
 
       // Verify that packet given by dataPhysicalOffset is actually a data packet,
       // init channels
@@ -587,8 +586,7 @@ namespace e57
       // Destroy decoders
       channels_.clear();
 
-      delete cache_;
-      cache_ = nullptr;
+      cache_.reset();
 
       isOpen_ = false;
    }
diff --git a/src/CompressedVectorReaderImpl.h b/src/CompressedVectorReaderImpl.h
index 3064bc1..65aa8b8 100644
--- a/src/CompressedVectorReaderImpl.h
+++ b/src/CompressedVectorReaderImpl.h
@@ -70,7 +70,7 @@ namespace e57
       std::shared_ptr<CompressedVectorNodeImpl> cVector_;
       NodeImplSharedPtr proto_;
       std::vector<DecodeChannel> channels_;
-      PacketReadCache *cache_;
+      std::unique_ptr<PacketReadCache> cache_;
 
       uint64_t recordCount_; /// number of records written so far
       uint64_t maxRecordCount_;
-- 
2.43.0


From dac1e552cada138d43157c8d17066516a6582073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:22 +0000
Subject: [PATCH 05/37] fix: report ErrorImageFileNotOpen for a node whose
 image file is gone

Using a node after the last ImageFile handle was destroyed let
std::bad_weak_ptr out of the library.
---
 src/NodeImpl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/NodeImpl.cpp b/src/NodeImpl.cpp
index 12c69c4..436e97d 100644
--- a/src/NodeImpl.cpp
+++ b/src/NodeImpl.cpp
@@ -45,10 +45,11 @@ void NodeImpl::checkImageFileOpen( const char *srcFileName, int srcLineNumber,
                                    const char *srcFunctionName ) const
 {
    // Throw an exception if destImageFile (destImageFile_) isn't open
-   ImageFileImplSharedPtr destImageFile( destImageFile_ );
-   if ( !destImageFile->isOpen() )
+   ImageFileImplSharedPtr destImageFile( destImageFile_.lock() );
+   if ( !destImageFile || !destImageFile->isOpen() )
    {
-      throw E57Exception( ErrorImageFileNotOpen, "fileName=" + destImageFile->fileName(),
+      throw E57Exception( ErrorImageFileNotOpen,
+                          destImageFile ? "fileName=" + destImageFile->fileName() : ustring(),
                           srcFileName, srcLineNumber, srcFunctionName );
    }
 }
-- 
2.43.0


From bbef8c621112683334fdb1e990b90b413d8d7e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:22 +0000
Subject: [PATCH 06/37] fix: check the index passed to extensionsPrefix() and
 extensionsUri()

An index past the last extension read outside the list.
---
 src/ImageFileImpl.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index 0187868..c737ee3 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -467,14 +467,28 @@ namespace e57
    {
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
-      return nameSpaces_[index].prefix; //??? throw e57 exception here if out of bounds?
+      if ( index >= nameSpaces_.size() )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument,
+                               "fileName=" + fileName_ + " index=" + toString( index ) +
+                                  " count=" + toString( nameSpaces_.size() ) );
+      }
+
+      return nameSpaces_[index].prefix;
    }
 
    ustring ImageFileImpl::extensionsUri( const size_t index ) const
    {
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
-      return nameSpaces_[index].uri; //??? throw e57 exception here if out of bounds?
+      if ( index >= nameSpaces_.size() )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument,
+                               "fileName=" + fileName_ + " index=" + toString( index ) +
+                                  " count=" + toString( nameSpaces_.size() ) );
+      }
+
+      return nameSpaces_[index].uri;
    }
 
    bool ImageFileImpl::isElementNameExtended( const ustring &elementName )
-- 
2.43.0


From 07809d94caa5c80e1c9306b00f34aa016c95ee23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:22 +0000
Subject: [PATCH 07/37] fix: reject a negative or overflowing range in blob
 read() and write()

The range check added start and count as unsigned numbers, so a negative
start wrapped around and passed. Such a write overwrote bytes in front of
the blob.
---
 src/BlobNodeImpl.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/BlobNodeImpl.cpp b/src/BlobNodeImpl.cpp
index 12ba879..301370f 100644
--- a/src/BlobNodeImpl.cpp
+++ b/src/BlobNodeImpl.cpp
@@ -123,10 +123,9 @@ namespace e57
 
    void BlobNodeImpl::read( uint8_t *buf, int64_t start, size_t count )
    {
-      //??? check start not negative
-
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
-      if ( static_cast<uint64_t>( start ) + count > blobLogicalLength_ )
+      if ( start < 0 || static_cast<uint64_t>( start ) > blobLogicalLength_ ||
+           count > blobLogicalLength_ - static_cast<uint64_t>( start ) )
       {
          throw E57_EXCEPTION2( ErrorBadAPIArgument,
                                "this->pathName=" + this->pathName() +
@@ -142,7 +141,6 @@ namespace e57
 
    void BlobNodeImpl::write( uint8_t *buf, int64_t start, size_t count )
    {
-      //??? check start not negative
       checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
       ImageFileImplSharedPtr destImageFile( destImageFile_ );
@@ -156,7 +154,8 @@ namespace e57
          throw E57_EXCEPTION2( ErrorNodeUnattached, "fileName=" + destImageFile->fileName() );
       }
 
-      if ( static_cast<uint64_t>( start ) + count > blobLogicalLength_ )
+      if ( start < 0 || static_cast<uint64_t>( start ) > blobLogicalLength_ ||
+           count > blobLogicalLength_ - static_cast<uint64_t>( start ) )
       {
          throw E57_EXCEPTION2( ErrorBadAPIArgument,
                                "this->pathName=" + this->pathName() +
-- 
2.43.0


From 37522ad55fca69d0783b2aa8de85184e1189d6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:22 +0000
Subject: [PATCH 08/37] fix: refuse to make a blob of negative length

---
 src/BlobNodeImpl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BlobNodeImpl.cpp b/src/BlobNodeImpl.cpp
index 301370f..cba8bb6 100644
--- a/src/BlobNodeImpl.cpp
+++ b/src/BlobNodeImpl.cpp
@@ -40,6 +40,11 @@ namespace e57
 
       ImageFileImplSharedPtr imf( destImageFile );
 
+      if ( byteCount < 0 )
+      {
+         throw E57_EXCEPTION2( ErrorBadAPIArgument, "byteCount=" + toString( byteCount ) );
+      }
+
       // This what caller thinks blob length is
       blobLogicalLength_ = byteCount;
 
-- 
2.43.0


From 93242715c0df9d99bce32d894f118aa5714bf3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:12 +0000
Subject: [PATCH 09/37] fix: store true, not false, for a non-zero number read
 into a bool buffer

---
 src/SourceDestBufferImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index 9da1777..ee779e2 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -238,7 +238,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         *reinterpret_cast<bool *>( p ) = ( inValue ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( inValue ? true : false );
          break;
       case Real32:
          if ( std::is_same<T, double>::value )
@@ -781,7 +781,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value )
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( value );
          break;
       case Bool:
-         *reinterpret_cast<bool *>( p ) = ( value ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( value ? true : false );
          break;
       case Real32:
          if ( !doConversion_ )
@@ -908,7 +908,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( scaledValue );
          break;
       case Bool:
-         *reinterpret_cast<bool *>( p ) = ( scaledValue ? false : true );
+         *reinterpret_cast<bool *>( p ) = ( scaledValue ? true : false );
          break;
       case Real32:
          if ( !doConversion_ )
-- 
2.43.0


From fb8632ff539774ff5ebd7e42091aa6b36c4f5aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:12 +0000
Subject: [PATCH 10/37] fix: reject doubles that do not fit when converting to
 single precision

The range checks used the limits of double, so larger values silently
became infinite.
---
 src/SourceDestBufferImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index ee779e2..99861e0 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -246,7 +246,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
             /// Does this count as conversion?  It loses information.
             /// Check for really large exponents that can't fit in a single
             /// precision
-            if ( inValue < DOUBLE_MIN || DOUBLE_MAX < inValue )
+            if ( inValue < FLOAT_MIN || FLOAT_MAX < inValue )
             {
                throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                      "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -588,7 +588,7 @@ float SourceDestBufferImpl::getNextFloat()
          double d = *reinterpret_cast<double *>( p );
 
          ///??? silently limit here?
-         if ( d < DOUBLE_MIN || DOUBLE_MAX < d )
+         if ( d < FLOAT_MIN || FLOAT_MAX < d )
          {
             throw E57_EXCEPTION2( ErrorReal64TooLarge,
                                   "pathName=" + pathName_ + " value=" + toString( d ) );
@@ -917,7 +917,7 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          }
          /// Check that exponent of result is not too big for single precision
          /// float
-         if ( scaledValue < DOUBLE_MIN || DOUBLE_MAX < scaledValue )
+         if ( scaledValue < FLOAT_MIN || FLOAT_MAX < scaledValue )
          {
             throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                                   "pathName=" + pathName_ +
-- 
2.43.0


From 618eb790ad3a5dc0a38239a2db7dabd5615263a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:12 +0000
Subject: [PATCH 11/37] fix: check the range of every floating point to integer
 conversion

Some conversions had no check. Others compared with the maximum after it was
rounded up to the next power of two, which let that power of two through.
---
 src/SourceDestBufferImpl.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index 99861e0..d96857a 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -202,7 +202,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < INT32_MIN || ( inValue > static_cast<T>( INT32_MAX ) ) )
+         if ( inValue < INT32_MIN || ( static_cast<double>( inValue ) > INT32_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -214,7 +214,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < UINT32_MIN || ( inValue > ( static_cast<T>( UINT32_MAX ) ) ) )
+         if ( inValue < UINT32_MIN || ( static_cast<double>( inValue ) > UINT32_MAX ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -226,7 +226,7 @@ template <typename T> void SourceDestBufferImpl::_setNextReal( T inValue )
          {
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
-         if ( inValue < INT64_MIN || ( inValue > ( static_cast<T>( INT64_MAX ) ) ) )
+         if ( inValue < INT64_MIN || ( inValue >= ( static_cast<T>( INT64_MAX ) ) ) )
          {
             throw E57_EXCEPTION2( ErrorValueNotRepresentable,
                                   "pathName=" + pathName_ + " value=" + toString( inValue ) );
@@ -365,6 +365,13 @@ int64_t SourceDestBufferImpl::getNextInt64()
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
          //??? fault if get special value: NaN, NegInf...
+         if ( *reinterpret_cast<float *>( p ) < static_cast<float>( INT64_MIN ) ||
+              *reinterpret_cast<float *>( p ) >= static_cast<float>( INT64_MAX ) )
+         {
+            throw E57_EXCEPTION2( ErrorValueNotRepresentable,
+                                  "pathName=" + pathName_ + " value=" +
+                                     toString( *reinterpret_cast<float *>( p ) ) );
+         }
          value = static_cast<int64_t>( *reinterpret_cast<float *>( p ) );
          break;
       case Real64:
@@ -373,6 +380,13 @@ int64_t SourceDestBufferImpl::getNextInt64()
             throw E57_EXCEPTION2( ErrorConversionRequired, "pathName=" + pathName_ );
          }
          //??? fault if get special value: NaN, NegInf...
+         if ( *reinterpret_cast<double *>( p ) < static_cast<double>( INT64_MIN ) ||
+              *reinterpret_cast<double *>( p ) >= static_cast<double>( INT64_MAX ) )
+         {
+            throw E57_EXCEPTION2( ErrorValueNotRepresentable,
+                                  "pathName=" + pathName_ + " value=" +
+                                     toString( *reinterpret_cast<double *>( p ) ) );
+         }
          value = static_cast<int64_t>( *reinterpret_cast<double *>( p ) );
          break;
       case UString:
@@ -492,7 +506,7 @@ int64_t SourceDestBufferImpl::getNextInt64( double scale, double offset )
    }
 
    /// Make sure that value is representable in an int64_t
-   if ( doubleRawValue < INT64_MIN || ( doubleRawValue > ( static_cast<double>( INT64_MAX ) ) ) )
+   if ( doubleRawValue < INT64_MIN || ( doubleRawValue >= ( static_cast<double>( INT64_MAX ) ) ) )
    {
       throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
                             "pathName=" + pathName_ + " value=" + toString( doubleRawValue ) );
@@ -905,6 +919,12 @@ void SourceDestBufferImpl::setNextInt64( int64_t value, double scale, double off
          *reinterpret_cast<uint32_t *>( p ) = static_cast<uint32_t>( scaledValue );
          break;
       case Int64:
+         if ( scaledValue < INT64_MIN || scaledValue >= static_cast<double>( INT64_MAX ) )
+         {
+            throw E57_EXCEPTION2( ErrorScaledValueNotRepresentable,
+                                  "pathName=" + pathName_ +
+                                     " scaledValue=" + toString( scaledValue ) );
+         }
          *reinterpret_cast<int64_t *>( p ) = static_cast<int64_t>( scaledValue );
          break;
       case Bool:
-- 
2.43.0


From 9997a21ccbd96bd5225179d89452191aaaae9b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:12 +0000
Subject: [PATCH 12/37] fix: compare doScaling when new buffers replace old
 ones

---
 src/SourceDestBufferImpl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SourceDestBufferImpl.cpp b/src/SourceDestBufferImpl.cpp
index d96857a..c41e1ca 100644
--- a/src/SourceDestBufferImpl.cpp
+++ b/src/SourceDestBufferImpl.cpp
@@ -1015,6 +1015,12 @@ void SourceDestBufferImpl::checkCompatible(
                             "doConversion=" + toString( doConversion_ ) +
                                "newDoConversion=" + toString( newBuf->doConversion() ) );
    }
+   if ( doScaling_ != newBuf->doScaling() )
+   {
+      throw E57_EXCEPTION2( ErrorBuffersNotCompatible,
+                            "doScaling=" + toString( doScaling_ ) +
+                               "newDoScaling=" + toString( newBuf->doScaling() ) );
+   }
    if ( stride_ != newBuf->stride() )
    {
       throw E57_EXCEPTION2( ErrorBuffersNotCompatible,
-- 
2.43.0


From 627cd7202cae331450732c8e5329319353b40bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:12 +0000
Subject: [PATCH 13/37] fix: allow the last padding byte of a full data packet

A packet of 65535 bytes needs one padding byte, which the bounds check
rejected with ErrorInternal.
---
 src/CompressedVectorWriterImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index c3df88f..2065528 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -581,7 +581,7 @@ namespace e57
       {
          // Double check we aren't accidentally going to write off end of
          // vector<char>
-         if ( p >= &packet[DATA_PACKET_MAX - 1] )
+         if ( p >= &packet[DATA_PACKET_MAX] )
          {
             throw E57_EXCEPTION1( ErrorInternal );
          }
-- 
2.43.0


From e2f9be8fed3d5bb01a795847ce3f06cdb8253de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:12 +0000
Subject: [PATCH 14/37] fix: avoid signed overflow for integers with a full 64
 bit range

---
 src/Encoder.cpp       | 2 +-
 src/ImageFileImpl.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Encoder.cpp b/src/Encoder.cpp
index e0c403f..1c274f0 100644
--- a/src/Encoder.cpp
+++ b/src/Encoder.cpp
@@ -746,7 +746,7 @@ uint64_t BitpackIntegerEncoder<RegisterT>::processRecords( size_t recordCount )
                                                          " maximum=" + toString( maximum_ ) );
       }
 
-      auto uValue = static_cast<uint64_t>( rawValue - minimum_ );
+      auto uValue = static_cast<uint64_t>( rawValue ) - static_cast<uint64_t>( minimum_ );
 
 #ifdef E57_VERBOSE
       std::cout << "encoding integer rawValue=" << binaryString( rawValue ) << " = "
diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index c737ee3..009e0d1 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -800,7 +800,8 @@ namespace e57
       // position of the first 1 (from left) in the binary form of stateCountMinus1.
       //??? move to E57Utility?
 
-      uint64_t stateCountMinus1 = maximum - minimum;
+      uint64_t stateCountMinus1 =
+         static_cast<uint64_t>( maximum ) - static_cast<uint64_t>( minimum );
 
       unsigned log2 = 0;
 
-- 
2.43.0


From 3e5968907787343981bf57bd36fbb3c11e52abf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:12 +0000
Subject: [PATCH 15/37] fix: stop decoding strings when the destination buffer
 is full

Reading a string field with a buffer smaller than the number of records
failed with ErrorInternal instead of leaving the rest for the next read().
---
 src/Decoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Decoder.cpp b/src/Decoder.cpp
index 2024cfe..8bbbbf8 100644
--- a/src/Decoder.cpp
+++ b/src/Decoder.cpp
@@ -514,7 +514,8 @@ size_t BitpackStringDecoder::inputProcessAligned( const char *inbuf, const size_
 
    // Loop until we've finished all the records, or ran out of input currently
    // available
-   while ( currentRecordIndex_ < maxRecordCount_ && nBytesRead < nBytesAvailable )
+   while ( currentRecordIndex_ < maxRecordCount_ && nBytesRead < nBytesAvailable &&
+           destBuffer_->nextIndex() < destBuffer_->capacity() )
    {
 #ifdef E57_VERBOSE
       std::cout << "read string loop1: readingPrefix=" << readingPrefix_
-- 
2.43.0


From abf29f548fcf12f97a179aebbc6ec77f35195aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:12 +0000
Subject: [PATCH 16/37] fix: refuse to set a child that belongs to another
 image file by path

Only set() by index had this check.
---
 src/StructureNodeImpl.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index e64f7e9..e3ac28d 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -331,6 +331,16 @@ void StructureNodeImpl::set( const std::vector<ustring> &fields, unsigned level,
    // Check if we are at bottom level
    if ( level == fields.size() - 1 )
    {
+      // Verify that child is destined for same ImageFile as this is
+      ImageFileImplSharedPtr thisDest( destImageFile() );
+      ImageFileImplSharedPtr niDest( ni->destImageFile() );
+      if ( thisDest != niDest )
+      {
+         throw E57_EXCEPTION2( ErrorDifferentDestImageFile,
+                               "this->destImageFile" + thisDest->fileName() + " ni->destImageFile" +
+                                  niDest->fileName() );
+      }
+
       // At bottom, so append node at end of children
       ni->setParent( shared_from_this(), fields.at( level ) );
       children_.push_back( ni );
-- 
2.43.0


From dc18b4fba62a9344e100587f786950aaeaa042ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:12 +0000
Subject: [PATCH 17/37] fix: apply the rules of vectors to children set by path

StructureNode::set("vector/1", node) added the child without the check for
homogeneous children, and accepted names that are not an index.
---
 src/StructureNodeImpl.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index e3ac28d..d95c1af 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -328,6 +328,19 @@ void StructureNodeImpl::set( const std::vector<ustring> &fields, unsigned level,
       throw E57_EXCEPTION2( ErrorHomogeneousViolation, "this->pathName=" + this->pathName() );
    }
 
+   // A vector can only be extended at its end, with children named by their index
+   if ( type() == TypeVector )
+   {
+      if ( level != fields.size() - 1 || fields.at( level ) != toString( children_.size() ) )
+      {
+         throw E57_EXCEPTION2( ErrorBadPathName, "this->pathName=" + this->pathName() +
+                                                    " field=" + fields.at( level ) );
+      }
+
+      append( ni );
+      return;
+   }
+
    // Check if we are at bottom level
    if ( level == fields.size() - 1 )
    {
-- 
2.43.0


From 5c834585bbbf916e8249f43d00961db6ab9827fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:50:12 +0000
Subject: [PATCH 18/37] fix: reject path names that end in a slash

They named a child with an empty element name, and setting one produced a
file that cannot be read back.
---
 src/ImageFileImpl.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ImageFileImpl.cpp b/src/ImageFileImpl.cpp
index 009e0d1..edb4f1c 100644
--- a/src/ImageFileImpl.cpp
+++ b/src/ImageFileImpl.cpp
@@ -620,11 +620,10 @@ namespace e57
             break;
          }
 
-         // Handle case when pathname ends in /, e.g. "/foo/", add empty field at end of list
+         // An element name can't be empty, so pathname must not end in /, e.g. "/foo/"
          if ( slash == pathName.size() - 1 )
          {
-            fields.emplace_back( "" );
-            break;
+            throw E57_EXCEPTION2( ErrorBadPathName, "pathName=" + pathName );
          }
 
          // Skip over the slash and keep going
-- 
2.43.0


From 4107d6a949cd4c63c4cc17add94b478a21c761c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:18 +0000
Subject: [PATCH 19/37] fix: report a page that was only partly written

write() can store fewer bytes than asked for, for instance when the disk is
full. Only a negative result was treated as a failure.
---
 src/CheckedFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 84222fc..198a7ac 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -821,7 +821,7 @@ void CheckedFile::writePhysicalPage( char *page_buffer, uint64_t page )
 #error "no supported compiler defined"
 #endif
 
-   if ( result < 0 )
+   if ( result < 0 || static_cast<size_t>( result ) != physicalPageSize )
    {
       throw E57_EXCEPTION2( ErrorWriteFailed,
                             "fileName=" + fileName_ + " result=" + toString( result ) );
-- 
2.43.0


From 8a0b6e5c41ef217c79a15f96aabf197a1f151cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:18 +0000
Subject: [PATCH 20/37] fix: close the file when its size is rejected on
 opening

The constructor threw after opening the file, so the destructor did not run
and the file descriptor leaked.
---
 src/CheckedFile.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 198a7ac..b296c47 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -208,16 +208,25 @@ CheckedFile::CheckedFile( const ustring &fileName, Mode mode, ReadChecksumPolicy
 
          readOnly_ = true;
 
-         physicalLength_ = lseek64( 0LL, SEEK_END );
+         try
+         {
+            physicalLength_ = lseek64( 0LL, SEEK_END );
+
+            if ( physicalLength_ % 1024 != 0 )
+            {
+               throw E57_EXCEPTION2( ErrorBadInputDataSize,
+                                     "file length is " + toString( physicalLength_ ) + " bytes" );
+            }
 
-         if ( physicalLength_ % 1024 != 0 )
+            lseek64( 0, SEEK_SET );
+         }
+         catch ( ... )
          {
-            throw E57_EXCEPTION2( ErrorBadInputDataSize,
-                                  "file length is " + toString( physicalLength_ ) + " bytes" );
+            // The destructor won't run
+            close();
+            throw;
          }
 
-         lseek64( 0, SEEK_SET );
-
          logicalLength_ = physicalToLogical( physicalLength_ );
       }
       break;
-- 
2.43.0


From b150e1345c0b4abed51bce7c66b3a979f0c82ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:18 +0000
Subject: [PATCH 21/37] fix: do not leave a cache entry labelled with the
 packet it replaced

When the new packet failed to read or verify, the entry kept the old offset
with the new bytes, and a later lock of the old packet returned them.
---
 src/Packet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Packet.cpp b/src/Packet.cpp
index 03482a5..f5d2488 100644
--- a/src/Packet.cpp
+++ b/src/Packet.cpp
@@ -181,6 +181,9 @@ void PacketReadCache::readPacket( unsigned oldestEntry, uint64_t packetLogicalOf
 
    auto &entry = entries_.at( oldestEntry );
 
+   // Entry holds nothing valid until the new packet is read and verified.
+   entry.logicalOffset_ = 0;
+
    // Now read in whole packet into preallocated buffer_.  Note buffer is
    cFile_->seek( packetLogicalOffset, CheckedFile::Logical );
    cFile_->read( entry.buffer_, packetLength );
-- 
2.43.0


From 38f35de108cf2e8c368d2c332c92dff855b2713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:18 +0000
Subject: [PATCH 22/37] fix: apply scale and offset when writing a constant
 scaled integer

A scaled integer field whose minimum equals its maximum compared the unscaled
value from the buffer with the raw minimum and refused correct data.
---
 src/Encoder.cpp | 15 +++++++++------
 src/Encoder.h   |  7 ++++++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/Encoder.cpp b/src/Encoder.cpp
index 1c274f0..f9d851d 100644
--- a/src/Encoder.cpp
+++ b/src/Encoder.cpp
@@ -83,7 +83,7 @@ std::shared_ptr<Encoder> Encoder::EncoderFactory( unsigned bytestreamNumber,
          if ( bitsPerRecord == 0 )
          {
             std::shared_ptr<Encoder> encoder(
-               new ConstantIntegerEncoder( bytestreamNumber, sbuf, ini->minimum() ) );
+               new ConstantIntegerEncoder( false, bytestreamNumber, sbuf, ini->minimum(), 1.0, 0.0 ) );
 
             return encoder;
          }
@@ -138,7 +138,8 @@ std::shared_ptr<Encoder> Encoder::EncoderFactory( unsigned bytestreamNumber,
          if ( bitsPerRecord == 0 )
          {
             std::shared_ptr<Encoder> encoder(
-               new ConstantIntegerEncoder( bytestreamNumber, sbuf, sini->minimum() ) );
+               new ConstantIntegerEncoder( true, bytestreamNumber, sbuf, sini->minimum(),
+                                           sini->scale(), sini->offset() ) );
 
             return encoder;
          }
@@ -893,10 +894,11 @@ void BitpackIntegerEncoder<RegisterT>::dump( int indent, std::ostream &os ) cons
 
 //================================================================
 
-ConstantIntegerEncoder::ConstantIntegerEncoder( unsigned bytestreamNumber, SourceDestBuffer &sbuf,
-                                                int64_t minimum ) :
+ConstantIntegerEncoder::ConstantIntegerEncoder( bool isScaledInteger, unsigned bytestreamNumber,
+                                                SourceDestBuffer &sbuf, int64_t minimum,
+                                                double scale, double offset ) :
    Encoder( bytestreamNumber ), sourceBuffer_( sbuf.impl() ), currentRecordIndex_( 0 ),
-   minimum_( minimum )
+   isScaledInteger_( isScaledInteger ), minimum_( minimum ), scale_( scale ), offset_( offset )
 {
 }
 
@@ -911,7 +913,8 @@ uint64_t ConstantIntegerEncoder::processRecords( size_t recordCount )
    // Check that all source values are == minimum_
    for ( unsigned i = 0; i < recordCount; i++ )
    {
-      int64_t nextInt64 = sourceBuffer_->getNextInt64();
+      int64_t nextInt64 = isScaledInteger_ ? sourceBuffer_->getNextInt64( scale_, offset_ )
+                                           : sourceBuffer_->getNextInt64();
       if ( nextInt64 != minimum_ )
       {
          throw E57_EXCEPTION2( ErrorValueOutOfBounds, "nextInt64=" + toString( nextInt64 ) +
diff --git a/src/Encoder.h b/src/Encoder.h
index 5806f6a..9f2ece6 100644
--- a/src/Encoder.h
+++ b/src/Encoder.h
@@ -176,7 +176,9 @@ namespace e57
    class ConstantIntegerEncoder : public Encoder
    {
    public:
-      ConstantIntegerEncoder( unsigned bytestreamNumber, SourceDestBuffer &sbuf, int64_t minimum );
+      ConstantIntegerEncoder( bool isScaledInteger, unsigned bytestreamNumber,
+                              SourceDestBuffer &sbuf, int64_t minimum, double scale,
+                              double offset );
       uint64_t processRecords( size_t recordCount ) override;
       unsigned sourceBufferNextIndex() override;
       uint64_t currentRecordIndex() override;
@@ -198,6 +200,9 @@ namespace e57
    protected:
       std::shared_ptr<SourceDestBufferImpl> sourceBuffer_;
       uint64_t currentRecordIndex_;
+      bool isScaledInteger_;
       int64_t minimum_;
+      double scale_;
+      double offset_;
    };
 }
-- 
2.43.0


From e67961a47ce4ba84943fdc7bcf0569f05245362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:46 +0000
Subject: [PATCH 23/37] fix: check that the image and transfer are open before
 taking new buffers

read(dbufs) and write(sbufs, n) replaced the transfer buffers first and only
then noticed that the image file, or the writer, had been closed.
---
 src/CompressedVectorReaderImpl.cpp | 4 +---
 src/CompressedVectorWriterImpl.cpp | 4 ++--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index 4277200..f8aeb4f 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -232,9 +232,7 @@ namespace e57
 
    unsigned CompressedVectorReaderImpl::read( std::vector<SourceDestBuffer> &dbufs )
    {
-      // don't checkImageFileOpen(__FILE__, __LINE__, __FUNCTION__), read() will
-      // do it
-
+      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
       checkReaderOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
       // Check compatible with current dbufs
diff --git a/src/CompressedVectorWriterImpl.cpp b/src/CompressedVectorWriterImpl.cpp
index 2065528..5c20aa3 100644
--- a/src/CompressedVectorWriterImpl.cpp
+++ b/src/CompressedVectorWriterImpl.cpp
@@ -291,8 +291,8 @@ namespace e57
    void CompressedVectorWriterImpl::write( std::vector<SourceDestBuffer> &sbufs,
                                            const size_t requestedRecordCount )
    {
-      // don't checkImageFileOpen, write(unsigned) will do it
-      // don't checkWriterOpen(), write(unsigned) will do it
+      checkImageFileOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
+      checkWriterOpen( __FILE__, __LINE__, static_cast<const char *>( __FUNCTION__ ) );
 
       setBuffers( sbufs );
       write( requestedRecordCount );
-- 
2.43.0


From 3f7d769579508081862aeab05ec7959c5f6a4abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:29 +0000
Subject: [PATCH 24/37] fix: keep the simple reader's and writer's destructors
 from throwing

Closing the image can fail, for example when the disk is full. The
destructors let that error escape, which ends the program.
---
 src/ReaderImpl.cpp | 11 +++++++++--
 src/WriterImpl.cpp | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/ReaderImpl.cpp b/src/ReaderImpl.cpp
index 37bfbe8..5c1351b 100644
--- a/src/ReaderImpl.cpp
+++ b/src/ReaderImpl.cpp
@@ -200,9 +200,16 @@ namespace e57
 
    ReaderImpl::~ReaderImpl()
    {
-      if ( IsOpen() )
+      try
       {
-         Close();
+         if ( IsOpen() )
+         {
+            Close();
+         }
+      }
+      catch ( ... )
+      {
+         //??? report?
       }
    }
 
diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index e6f4914..59eab04 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -175,9 +175,16 @@ namespace e57
 
    WriterImpl::~WriterImpl()
    {
-      if ( IsOpen() )
+      try
       {
-         Close();
+         if ( IsOpen() )
+         {
+            Close();
+         }
+      }
+      catch ( ... )
+      {
+         //??? report?
       }
    }
 
-- 
2.43.0


From 878dc9435c5718bd182cccb280b3337bb55be56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:38 +0000
Subject: [PATCH 25/37] fix: store bounds and colour limits when any of their
 members is set

---
 src/WriterImpl.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index 59eab04..2a8c679 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -706,8 +706,7 @@ namespace e57
          scan.set( "intensityLimits", intbox );
       }
 
-      if ( ( data3DHeader.colorLimits.colorRedMaximum != 0.0 ) ||
-           ( data3DHeader.colorLimits.colorRedMinimum != 0.0 ) )
+      if ( data3DHeader.colorLimits != ColorLimits{} )
       {
          StructureNode colorbox( imf_ );
 
@@ -735,8 +734,7 @@ namespace e57
 
       // Add Cartesian bounding box to scan.
       // Path names: "/data3D/0/cartesianBounds/xMinimum", etc...
-      if ( ( data3DHeader.cartesianBounds.xMinimum != -DOUBLE_MAX ) ||
-           ( data3DHeader.cartesianBounds.xMaximum != DOUBLE_MAX ) )
+      if ( data3DHeader.cartesianBounds != CartesianBounds{} )
       {
          StructureNode bbox( imf_ );
 
@@ -750,8 +748,7 @@ namespace e57
          scan.set( "cartesianBounds", bbox );
       }
 
-      if ( ( data3DHeader.sphericalBounds.rangeMinimum != 0.0 ) ||
-           ( data3DHeader.sphericalBounds.rangeMaximum != DOUBLE_MAX ) )
+      if ( data3DHeader.sphericalBounds != SphericalBounds{} )
       {
          StructureNode sbox( imf_ );
 
-- 
2.43.0


From ef8dd5934cfce259c31f9590d46d9c86c7bb1183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:50 +0000
Subject: [PATCH 26/37] fix: add a scan or image to the file only once its
 description has been accepted

---
 src/WriterImpl.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index 2a8c679..9d5cfbd 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -208,10 +208,6 @@ namespace e57
    {
       StructureNode image( imf_ );
 
-      images2D_.append( image );
-
-      int64_t pos = images2D_.childCount() - 1;
-
       if ( image2DHeader.guid.empty() )
       {
          image2DHeader.guid = generateRandomGUID();
@@ -467,7 +463,10 @@ namespace e57
                          IntegerNode( imf_, static_cast<int64_t>( pcd->CV_WIDTH ) ) );
       }
 
-      return pos;
+      // Everything is valid, so add it to the file.
+      images2D_.append( image );
+
+      return images2D_.childCount() - 1;
    }
 
    size_t WriterImpl::WriteImage2DData( int64_t imageIndex, Image2DType imageType,
@@ -529,9 +528,6 @@ namespace e57
    int64_t WriterImpl::NewData3D( Data3D &data3DHeader )
    {
       StructureNode scan( imf_ );
-      data3D_.append( scan );
-
-      int64_t pos = data3D_.childCount() - 1;
 
       if ( data3DHeader.guid.empty() )
       {
@@ -1202,7 +1198,10 @@ namespace e57
 
       scan.set( "points", points );
 
-      return pos;
+      // Everything is valid, so add it to the file.
+      data3D_.append( scan );
+
+      return data3D_.childCount() - 1;
    }
 
    template <typename COORDTYPE>
-- 
2.43.0


From cf2b9190d45d4c14902e066e552ef75fde5edb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:01 +0000
Subject: [PATCH 27/37] fix: refuse a zero scale for intensity and time stamps

---
 src/WriterImpl.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index 9d5cfbd..94b862a 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -667,6 +667,11 @@ namespace e57
                const double scale = data3DHeader.pointFields.intensityScale;
                const double offset = 0.0;
 
+               if ( scale == 0.0 )
+               {
+                  throw E57_EXCEPTION2( ErrorInvalidData3DValue, "intensityScale cannot be 0" );
+               }
+
                const auto rawIntegerMinimum =
                   static_cast<int64_t>( std::floor( ( intensityMin - offset ) / scale + .5 ) );
                const auto rawIntegerMaximum =
@@ -1020,6 +1025,11 @@ namespace e57
                const double scale = data3DHeader.pointFields.intensityScale;
                const double offset = 0.0; // could be data3DHeader.intensityLimits.intensityMinimum;
 
+               if ( scale == 0.0 )
+               {
+                  throw E57_EXCEPTION2( ErrorInvalidData3DValue, "intensityScale cannot be 0" );
+               }
+
                const auto rawIntegerMaximum =
                   static_cast<int64_t>( std::floor( ( intensityMax - offset ) / scale + .5 ) );
                const auto rawIntegerMinimum =
@@ -1114,6 +1124,11 @@ namespace e57
                const double scale = data3DHeader.pointFields.timeScale;
                const double offset = 0.0;
 
+               if ( scale == 0.0 )
+               {
+                  throw E57_EXCEPTION2( ErrorInvalidData3DValue, "timeScale cannot be 0" );
+               }
+
                const auto rawIntegerMinimum =
                   static_cast<int64_t>( std::floor( ( timeMinimum - offset ) / scale + .5 ) );
                const auto rawIntegerMaximum =
-- 
2.43.0


From 2a1febeb9af3938b3d5e8e342a4d1173bd6c65d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:27:30 +0000
Subject: [PATCH 28/37] fix: look only at point buffers that are present when
 working out ranges

---
 src/E57SimpleWriter.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/E57SimpleWriter.cpp b/src/E57SimpleWriter.cpp
index d11d81e..9ebbffe 100644
--- a/src/E57SimpleWriter.cpp
+++ b/src/E57SimpleWriter.cpp
@@ -66,6 +66,7 @@ namespace
       auto angleMaximum = cMin;
 
       const bool writeAngle =
+         ( pointFields.sphericalAzimuthField || pointFields.sphericalElevationField ) &&
          ( pointFields.angleNodeType == e57::NumericalNodeType::ScaledInteger ) &&
          ( pointFields.angleMinimum == cMin ) && ( pointFields.angleMaximum == cMax );
 
@@ -83,18 +84,25 @@ namespace
       // Now run through the points and set the things we need to
       for ( size_t i = 0; i < ioData3DHeader.pointCount; ++i )
       {
-         if ( writePointRange && pointFields.cartesianXField )
+         if ( writePointRange && pointFields.cartesianXField && inBuffers.cartesianX )
          {
             pointRangeMinimum = std::min( inBuffers.cartesianX[i], pointRangeMinimum );
-            pointRangeMinimum = std::min( inBuffers.cartesianY[i], pointRangeMinimum );
-            pointRangeMinimum = std::min( inBuffers.cartesianZ[i], pointRangeMinimum );
-
             pointRangeMaximum = std::max( inBuffers.cartesianX[i], pointRangeMaximum );
+         }
+
+         if ( writePointRange && pointFields.cartesianYField && inBuffers.cartesianY )
+         {
+            pointRangeMinimum = std::min( inBuffers.cartesianY[i], pointRangeMinimum );
             pointRangeMaximum = std::max( inBuffers.cartesianY[i], pointRangeMaximum );
+         }
+
+         if ( writePointRange && pointFields.cartesianZField && inBuffers.cartesianZ )
+         {
+            pointRangeMinimum = std::min( inBuffers.cartesianZ[i], pointRangeMinimum );
             pointRangeMaximum = std::max( inBuffers.cartesianZ[i], pointRangeMaximum );
          }
 
-         if ( writePointRange && pointFields.sphericalRangeField )
+         if ( writePointRange && pointFields.sphericalRangeField && inBuffers.sphericalRange )
          {
             // Note that the writer code uses pointRangeMinimum/pointRangeMaximum
             // (see WriterImpl::NewData3D()) instead of using the sphericalBounds which has
@@ -103,16 +111,19 @@ namespace
             pointRangeMaximum = std::max( inBuffers.sphericalRange[i], pointRangeMaximum );
          }
 
-         if ( writeAngle )
+         if ( writeAngle && pointFields.sphericalAzimuthField && inBuffers.sphericalAzimuth )
          {
             angleMinimum = std::min( inBuffers.sphericalAzimuth[i], angleMinimum );
-            angleMinimum = std::min( inBuffers.sphericalElevation[i], angleMinimum );
-
             angleMaximum = std::max( inBuffers.sphericalAzimuth[i], angleMaximum );
+         }
+
+         if ( writeAngle && pointFields.sphericalElevationField && inBuffers.sphericalElevation )
+         {
+            angleMinimum = std::min( inBuffers.sphericalElevation[i], angleMinimum );
             angleMaximum = std::max( inBuffers.sphericalElevation[i], angleMaximum );
          }
 
-         if ( writeTimeStamp )
+         if ( writeTimeStamp && inBuffers.timeStamp )
          {
             timeMinimum = std::min( inBuffers.timeStamp[i], timeMinimum );
             timeMaximum = std::max( inBuffers.timeStamp[i], timeMaximum );
-- 
2.43.0


From afc818313e0e35f11532ac0237505fd54b838abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:02 +0000
Subject: [PATCH 29/37] fix: refuse an unknown number type for intensity and
 time stamps

A type outside the enumeration was accepted and the field silently left out of the scan.
---
 src/WriterImpl.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/WriterImpl.cpp b/src/WriterImpl.cpp
index 94b862a..b77170c 100644
--- a/src/WriterImpl.cpp
+++ b/src/WriterImpl.cpp
@@ -702,6 +702,12 @@ namespace e57
 
                break;
             }
+
+            default:
+               throw E57_EXCEPTION2(
+                  ErrorInvalidNodeType,
+                  std::string( "Invalid intensityNodeType type: " )
+                     .append( _numericalNodeTypeStr( data3DHeader.pointFields.intensityNodeType ) ) );
          }
 
          scan.set( "intensityLimits", intbox );
@@ -1058,6 +1064,12 @@ namespace e57
 
                break;
             }
+
+            default:
+               throw E57_EXCEPTION2(
+                  ErrorInvalidNodeType,
+                  std::string( "Invalid intensityNodeType type: " )
+                     .append( _numericalNodeTypeStr( data3DHeader.pointFields.intensityNodeType ) ) );
          }
       }
 
@@ -1152,6 +1164,12 @@ namespace e57
                           FloatNode( imf_, 0.0, PrecisionDouble, DOUBLE_MIN, DOUBLE_MAX ) );
                break;
             }
+
+            default:
+               throw E57_EXCEPTION2(
+                  ErrorInvalidNodeType,
+                  std::string( "Invalid timeNodeType type: " )
+                     .append( _numericalNodeTypeStr( data3DHeader.pointFields.timeNodeType ) ) );
          }
       }
 
-- 
2.43.0


From fe89cd8720a0031df7118eb26f6899548df88e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:09:32 +0000
Subject: [PATCH 30/37] fix: refuse to read a compressed vector that has no
 prototype

---
 src/CompressedVectorReaderImpl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/CompressedVectorReaderImpl.cpp b/src/CompressedVectorReaderImpl.cpp
index f8aeb4f..c23db4c 100644
--- a/src/CompressedVectorReaderImpl.cpp
+++ b/src/CompressedVectorReaderImpl.cpp
@@ -64,6 +64,13 @@ namespace e57
       // type)
       proto_ = cVector_->getPrototype();
 
+      // The file may lack the prototype section
+      if ( !proto_ )
+      {
+         throw E57_EXCEPTION2( ErrorBadPrototype, "imageFileName=" + cVector_->imageFileName() +
+                                                     " cvPathName=" + cVector_->pathName() );
+      }
+
       // Check dbufs well formed (matches proto exactly)
       setBuffers( dbufs );
 
-- 
2.43.0


From 0dd7f451b918f209f8f1d553c33bf11b9f21f40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:09:32 +0000
Subject: [PATCH 31/37] fix: write single precision numbers with enough digits
 to read them back

---
 src/CheckedFile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index b296c47..a9669b2 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -487,8 +487,8 @@ CheckedFile &CheckedFile::operator<<( uint64_t i )
 
 CheckedFile &CheckedFile::operator<<( float f )
 {
-   //??? is 7 digits right number?
-   return writeFloatingPoint( f, 7 );
+   // 8 digits after the point (9 significant digits) identify every single precision number
+   return writeFloatingPoint( f, 8 );
 }
 
 CheckedFile &CheckedFile::operator<<( double d )
-- 
2.43.0


From 7e81cdcb41a19cf3c5c912485ab24454371a06d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:13 +0000
Subject: [PATCH 32/37] fix: read single precision numbers back as the number
 that was written

---
 src/E57XmlParser.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index 101f470..e33b66e 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -475,6 +475,12 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
       {
          ustring minimum_str = lookupAttribute( attributes, att_minimum );
          pi.floatMinimum = strToDouble( minimum_str ); //??? use exact rounding library
+
+         // Written with limited digits, so round back to the number that was written
+         if ( pi.precision == PrecisionSingle )
+         {
+            pi.floatMinimum = static_cast<float>( pi.floatMinimum );
+         }
       }
       else
       {
@@ -493,6 +499,12 @@ void E57XmlParser::startElement( const XMLCh *const uri, const XMLCh *const loca
       {
          ustring maximum_str = lookupAttribute( attributes, att_maximum );
          pi.floatMaximum = strToDouble( maximum_str ); //??? use exact rounding library
+
+         // Written with limited digits, so round back to the number that was written
+         if ( pi.precision == PrecisionSingle )
+         {
+            pi.floatMaximum = static_cast<float>( pi.floatMaximum );
+         }
       }
       else
       {
@@ -767,6 +779,12 @@ void E57XmlParser::endElement( const XMLCh *const uri, const XMLCh *const localN
          {
             floatValue = strToDouble( pi.childText );
             foundValue = true;
+
+            // Written with limited digits, so round back to the number that was written
+            if ( pi.precision == PrecisionSingle )
+            {
+               floatValue = static_cast<float>( floatValue );
+            }
          }
 
          std::shared_ptr<FloatNodeImpl> f_ni(
-- 
2.43.0


From 24a948d63e280baaa3c54cecf6a606d851ec11a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:20:31 +0000
Subject: [PATCH 33/37] fix: write integers the same way in every locale

The text of an integer followed the global locale, so a program that installed
one with thousands separators wrote an XML section that no reader understands.
---
 src/CheckedFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index a9669b2..7946c32 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -474,6 +474,7 @@ CheckedFile &CheckedFile::operator<<( const ustring &s )
 CheckedFile &CheckedFile::operator<<( int64_t i )
 {
    std::stringstream ss;
+   ss.imbue( std::locale::classic() );
    ss << i;
    return ( *this << ss.str() );
 }
@@ -481,6 +482,7 @@ CheckedFile &CheckedFile::operator<<( int64_t i )
 CheckedFile &CheckedFile::operator<<( uint64_t i )
 {
    std::stringstream ss;
+   ss.imbue( std::locale::classic() );
    ss << i;
    return ( *this << ss.str() );
 }
-- 
2.43.0


From 196961cfc0c13ab58b069be88ec0530176a6d1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:20:31 +0000
Subject: [PATCH 34/37] fix: name the children of a vector the same way in
 every locale

The name is the decimal index of the child. With a global locale that has
thousands separators, children from index 1000 on could not be found by path name.
---
 src/StructureNodeImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/StructureNodeImpl.cpp b/src/StructureNodeImpl.cpp
index d95c1af..dcb7b62 100644
--- a/src/StructureNodeImpl.cpp
+++ b/src/StructureNodeImpl.cpp
@@ -237,6 +237,7 @@ void StructureNodeImpl::set( int64_t index64, NodeImplSharedPtr ni )
 
    // Field name is string version of index value, e.g. "14"
    std::stringstream elementName;
+   elementName.imbue( std::locale::classic() );
    elementName << index;
 
    // If this struct is type constrained, can't add new child
-- 
2.43.0


From 042674cb45c26261de60c52dceb0703699ad7811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:20:31 +0000
Subject: [PATCH 35/37] fix: convert numbers to decimal strings the same way in
 every locale

The path name of a new vector child is compared with the result. With a global
locale that has thousands separators, child 1000 and later were refused.
---
 src/StringFunctions.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/StringFunctions.h b/src/StringFunctions.h
index b40b119..d43ea95 100644
--- a/src/StringFunctions.h
+++ b/src/StringFunctions.h
@@ -49,6 +49,7 @@ namespace e57
                      "Numeric type required." );
 
       std::ostringstream ss;
+      ss.imbue( std::locale::classic() );
       ss << x;
       return ss.str();
    }
-- 
2.43.0


From 06972962b68396ffb981357d134ce05d8fb79eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:20 +0000
Subject: [PATCH 36/37] fix: release the strings of XML parser messages

Each error of the parser leaked the converted text of its message and system id.
---
 src/E57XmlParser.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/E57XmlParser.cpp b/src/E57XmlParser.cpp
index e33b66e..675d1ac 100644
--- a/src/E57XmlParser.cpp
+++ b/src/E57XmlParser.cpp
@@ -292,8 +292,11 @@ void E57XmlParser::init()
    catch ( const XMLException &ex )
    {
       // Turn parser exception into E57Exception
-      throw E57_EXCEPTION2( ErrorXMLParserInit,
-                            "parserMessage=" + ustring( XMLString::transcode( ex.getMessage() ) ) );
+      char *message = XMLString::transcode( ex.getMessage() );
+      const ustring parserMessage( message );
+      XMLString::release( &message );
+
+      throw E57_EXCEPTION2( ErrorXMLParserInit, "parserMessage=" + parserMessage );
    }
 
    xmlReader = XMLReaderFactory::createXMLReader(); //??? auto_ptr?
@@ -961,28 +964,28 @@ void E57XmlParser::characters( const XMLCh *const chars, const XMLSize_t length
 void E57XmlParser::error( const SAXParseException &ex )
 {
    throw E57_EXCEPTION2(
-      ErrorXMLParser, "systemId=" + ustring( XMLString::transcode( ex.getSystemId() ) ) +
+      ErrorXMLParser, "systemId=" + toUString( ex.getSystemId() ) +
                          " xmlLine=" + toString( ex.getLineNumber() ) +
                          " xmlColumn=" + toString( ex.getColumnNumber() ) +
-                         " parserMessage=" + ustring( XMLString::transcode( ex.getMessage() ) ) );
+                         " parserMessage=" + toUString( ex.getMessage() ) );
 }
 
 void E57XmlParser::fatalError( const SAXParseException &ex )
 {
    throw E57_EXCEPTION2(
-      ErrorXMLParser, "systemId=" + ustring( XMLString::transcode( ex.getSystemId() ) ) +
+      ErrorXMLParser, "systemId=" + toUString( ex.getSystemId() ) +
                          " xmlLine=" + toString( ex.getLineNumber() ) +
                          " xmlColumn=" + toString( ex.getColumnNumber() ) +
-                         " parserMessage=" + ustring( XMLString::transcode( ex.getMessage() ) ) );
+                         " parserMessage=" + toUString( ex.getMessage() ) );
 }
 
 void E57XmlParser::warning( const SAXParseException &ex )
 {
    // Don't take any action on warning from parser, just report
-   std::cerr << "**** XML parser warning: " << ustring( XMLString::transcode( ex.getMessage() ) )
+   std::cerr << "**** XML parser warning: " << toUString( ex.getMessage() )
              << std::endl;
    std::cerr << "  Debug info:" << std::endl;
-   std::cerr << "    systemId=" << XMLString::transcode( ex.getSystemId() ) << std::endl;
+   std::cerr << "    systemId=" << toUString( ex.getSystemId() ) << std::endl;
    std::cerr << ",   xmlLine=" << ex.getLineNumber() << std::endl;
    std::cerr << ",   xmlColumn=" << ex.getColumnNumber() << std::endl;
 }
-- 
2.43.0


From 32a3c81b546d1364a472759c764139f49d6287de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:30:20 +0000
Subject: [PATCH 37/37] fix: close a file descriptor only once

After a failed close the descriptor was kept and closed a second time by the
destructor. By then it may belong to another file.
---
 src/CheckedFile.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/CheckedFile.cpp b/src/CheckedFile.cpp
index 7946c32..5e36348 100644
--- a/src/CheckedFile.cpp
+++ b/src/CheckedFile.cpp
@@ -706,13 +706,15 @@ void CheckedFile::close()
 #else
 #error "no supported compiler defined"
 #endif
+
+      // Whatever the result, the descriptor must not be closed again
+      fd_ = -1;
+
       if ( result < 0 )
       {
          throw E57_EXCEPTION2( ErrorCloseFailed,
                                "fileName=" + fileName_ + " result=" + toString( result ) );
       }
-
-      fd_ = -1;
    }
 
    if ( bufView_ != nullptr )
-- 
2.43.0

