// Concrete failing histories for the defects recorded in known-findings.txt.
// Usage: defects <case>   exit 0: the property holds on this history, 1: it does not.
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <locale>
#include <map>
#include <cmath>

#include <csignal>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>

#include "CheckedFile.h"
#include "E57Format.h"
#include "Packet.h"
#include "E57SimpleReader.h"
#include "E57SimpleWriter.h"

using namespace e57;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static const char *F = "defect.e57";

static int code( const std::function<void()> &f )
{
   try
   {
      f();
   }
   catch ( E57Exception &e )
   {
      return e.errorCode();
   }
   return 0;
}

struct W
{
   ImageFile imf{ F, "w" };
   std::vector<SourceDestBuffer> sb;
   std::vector<int64_t> x = std::vector<int64_t>( 10, 1 );
   CompressedVectorNode cv;
   W( int64_t lo = 0, int64_t hi = 100 ) : cv( make( lo, hi ) )
   {
      sb.emplace_back( imf, "x", x.data(), x.size(), true, false );
   }
   CompressedVectorNode make( int64_t lo, int64_t hi )
   {
      StructureNode proto( imf );
      proto.set( "x", IntegerNode( imf, lo, lo, hi ) );
      VectorNode codecs( imf, true );
      CompressedVectorNode c( imf, proto, codecs );
      imf.root().set( "points", c );
      return c;
   }
};

static int doubleCloseWriter()
{
   W w;
   auto wr = w.cv.writer( w.sb );
   wr.write( 10 );
   wr.close();
   wr.close();
   std::cout << "writerCount " << w.imf.writerCount() << "\n";
   return w.imf.writerCount() != 0;
}
static void writeFile()
{
   W w;
   for ( size_t i = 0; i < 10; i++ )
      w.x[i] = i;
   auto wr = w.cv.writer( w.sb );
   wr.write( 10 );
   wr.close();
   w.imf.close();
}
static int doubleCloseReader()
{
   writeFile();
   ImageFile imf( F, "r" );
   CompressedVectorNode cv( imf.root().get( "points" ) );
   std::vector<int64_t> x( 10 );
   std::vector<SourceDestBuffer> db;
   db.emplace_back( imf, "x", x.data(), x.size(), true, false );
   auto rd = cv.reader( db );
   rd.read();
   rd.close();
   rd.close();
   std::cout << "readerCount " << imf.readerCount() << "\n";
   return imf.readerCount() != 0;
}
static int readAfterClose()
{
   writeFile();
   ImageFile imf( F, "r" );
   CompressedVectorNode cv( imf.root().get( "points" ) );
   std::vector<int64_t> x( 2 );
   std::vector<SourceDestBuffer> db;
   db.emplace_back( imf, "x", x.data(), x.size(), true, false );
   auto rd = cv.reader( db );
   rd.read();
   imf.close();
   int c = code( [&] { rd.read(); } );
   std::cout << "code " << c << "\n";
   return c != ErrorImageFileNotOpen;
}
static int writeAfterClose()
{
   W w;
   auto wr = w.cv.writer( w.sb );
   wr.write( 10 );
   w.imf.close();
   int c = code( [&] { wr.write( 10 ); } );
   std::cout << "code " << c << "\n";
   return c != ErrorImageFileNotOpen;
}
static int readNewBuffers()
{
   writeFile();
   ImageFile imf( F, "r" );
   CompressedVectorNode cv( imf.root().get( "points" ) );
   std::vector<int64_t> x( 5, -1 ), y( 5, -1 );
   std::vector<SourceDestBuffer> db, db2;
   db.emplace_back( imf, "x", x.data(), x.size(), true, false );
   db2.emplace_back( imf, "x", y.data(), y.size(), true, false );
   auto rd = cv.reader( db );
   rd.read();
   unsigned n = rd.read( db2 );
   std::cout << "n " << n << " y[0] " << y[0] << "\n";
   return !( n == 5 && y[0] == 5 && y[4] == 9 && x[0] == 0 );
}
static int writeNewBuffers()
{
   {
      W w;
      std::vector<int64_t> y( 10, 7 );
      std::vector<SourceDestBuffer> sb2;
      sb2.emplace_back( w.imf, "x", y.data(), y.size(), true, false );
      auto wr = w.cv.writer( w.sb );
      wr.write( 10 );
      wr.write( sb2, 10 );
      wr.close();
      w.imf.close();
   }
   ImageFile imf( F, "r" );
   CompressedVectorNode cv( imf.root().get( "points" ) );
   std::vector<int64_t> x( 20 );
   std::vector<SourceDestBuffer> db;
   db.emplace_back( imf, "x", x.data(), x.size(), true, false );
   auto rd = cv.reader( db );
   rd.read();
   std::cout << x[0] << " " << x[15] << "\n";
   return x[15] != 7;
}
static int destroyedImage()
{
   std::vector<Node> keep;
   {
      ImageFile imf( F, "w" );
      keep.push_back( IntegerNode( imf, 1, 0, 2 ) );
      imf.close();
   }
   try
   {
      keep[0].pathName();
   }
   catch ( E57Exception &e )
   {
      return e.errorCode() != ErrorImageFileNotOpen;
   }
   catch ( std::exception &e )
   {
      std::cout << e.what() << "\n";
      return 1;
   }
   return 1;
}
static int extensionsIndex()
{
   ImageFile imf( F, "w" );
   int a = code( [&] { imf.extensionsPrefix( 3 ); } );
   return a != ErrorBadAPIArgument;
}
static int extensionsIndexUri()
{
   ImageFile imf( F, "w" );
   int a = code( [&] { imf.extensionsUri( 3 ); } );
   return a != ErrorBadAPIArgument;
}
static int blobOverflow()
{
   ImageFile imf( F, "w" );
   BlobNode b( imf, 100 );
   imf.root().set( "b", b );
   uint8_t buf[16] = {};
   int a = code( [&] { b.write( buf, -8, 16 ); } );
   int c = code( [&] { b.read( buf, std::numeric_limits<int64_t>::max() - 4, 16 ); } );
   std::cout << a << " " << c << "\n";
   return a != ErrorBadAPIArgument || c != ErrorBadAPIArgument;
}
static int blobNegative()
{
   ImageFile imf( F, "w" );
   int a = code( [&] { BlobNode b( imf, -8 ); } );
   std::cout << a << "\n";
   return a == 0;
}
static int boolFromInt()
{
   {
      W w( 0, 1 );
      for ( size_t i = 0; i < 10; i++ )
         w.x[i] = 1;
      auto wr = w.cv.writer( w.sb );
      wr.write( 10 );
      wr.close();
      w.imf.close();
   }
   ImageFile imf( F, "r" );
   CompressedVectorNode cv( imf.root().get( "points" ) );
   bool x[10] = {};
   std::vector<SourceDestBuffer> db;
   db.emplace_back( imf, "x", x, 10, true, false );
   auto rd = cv.reader( db );
   rd.read();
   std::cout << x[0] << "\n";
   return x[0] != true;
}
static int real32Overflow()
{
   {
      ImageFile imf( F, "w" );
      StructureNode proto( imf );
      proto.set( "x", FloatNode( imf, 0. ) );
      VectorNode codecs( imf, true );
      CompressedVectorNode cv( imf, proto, codecs );
      imf.root().set( "points", cv );
      std::vector<double> d( 2, 1e300 );
      std::vector<SourceDestBuffer> sb;
      sb.emplace_back( imf, "x", d.data(), d.size(), true, false );
      auto wr = cv.writer( sb );
      wr.write( 2 );
      wr.close();
      imf.close();
   }
   ImageFile imf( F, "r" );
   CompressedVectorNode cv( imf.root().get( "points" ) );
   std::vector<float> d( 2 );
   std::vector<SourceDestBuffer> sb;
   sb.emplace_back( imf, "x", d.data(), d.size(), true, false );
   auto rd = cv.reader( sb );
   int c = code( [&] { rd.read(); } );
   std::cout << c << " " << d[0] << "\n";
   return c != ErrorValueNotRepresentable;
}
static int floatToSingleWrite()
{
   ImageFile imf( F, "w" );
   StructureNode proto( imf );
   proto.set( "x", FloatNode( imf, 0., PrecisionSingle ) );
   VectorNode codecs( imf, true );
   CompressedVectorNode cv( imf, proto, codecs );
   imf.root().set( "points", cv );
   std::vector<double> d( 2, 1e300 );
   std::vector<SourceDestBuffer> sb;
   sb.emplace_back( imf, "x", d.data(), d.size(), true, false );
   auto wr = cv.writer( sb );
   int c = code( [&] { wr.write( 2 ); } );
   std::cout << c << "\n";
   return c != ErrorReal64TooLarge;
}
static int realToInt64()
{
   W w( INT64_MIN, INT64_MAX );
   std::vector<double> d( 10, 1e30 );
   std::vector<SourceDestBuffer> sb;
   sb.emplace_back( w.imf, "x", d.data(), d.size(), true, false );
   auto wr = w.cv.writer( sb );
   int c = code( [&] { wr.write( 10 ); } );
   std::cout << c << "\n";
   return c != ErrorValueNotRepresentable;
}
static int scaledToInt64()
{
   {
      ImageFile imf( F, "w" );
      StructureNode proto( imf );
      proto.set( "x", ScaledIntegerNode( imf, INT64_C( 0 ), INT64_C( 0 ), INT64_C( 100 ), 1e300, 0. ) );
      VectorNode codecs( imf, true );
      CompressedVectorNode cv( imf, proto, codecs );
      imf.root().set( "points", cv );
      std::vector<int64_t> d( 2, 50 );
      std::vector<SourceDestBuffer> sb;
      sb.emplace_back( imf, "x", d.data(), d.size(), true, false );
      auto wr = cv.writer( sb );
      wr.write( 2 );
      wr.close();
      imf.close();
   }
   ImageFile imf( F, "r" );
   CompressedVectorNode cv( imf.root().get( "points" ) );
   std::vector<int64_t> d( 2 );
   std::vector<SourceDestBuffer> sb;
   sb.emplace_back( imf, "x", d.data(), d.size(), true, true );
   auto rd = cv.reader( sb );
   int c = code( [&] { rd.read(); } );
   std::cout << c << " " << d[0] << "\n";
   return c != ErrorScaledValueNotRepresentable && c != ErrorValueNotRepresentable;
}
static int constantScaled()
{
   ImageFile imf( F, "w" );
   StructureNode proto( imf );
   proto.set( "x", ScaledIntegerNode( imf, INT64_C( 5 ), INT64_C( 5 ), INT64_C( 5 ), .5, 0. ) );
   VectorNode codecs( imf, true );
   CompressedVectorNode cv( imf, proto, codecs );
   imf.root().set( "points", cv );
   std::vector<double> d( 2, 2.5 );
   std::vector<SourceDestBuffer> sb;
   sb.emplace_back( imf, "x", d.data(), d.size(), true, true );
   auto wr = cv.writer( sb );
   int c = code( [&] { wr.write( 2 ); } );
   std::cout << c << "\n";
   return c != 0;
}
static int paddedPacket()
{
   // One float32 stream plus an 8 bit stream sized so the packet length is 65535
   ImageFile imf( F, "w" );
   StructureNode proto( imf );
   proto.set( "x", StringNode( imf ) );
   VectorNode codecs( imf, true );
   CompressedVectorNode cv( imf, proto, codecs );
   imf.root().set( "points", cv );
   // 65527 payload bytes: one string with an 8 byte length prefix
   std::vector<std::string> s( 1, std::string( 65527 - 8, 'a' ) );
   std::vector<SourceDestBuffer> sb;
   sb.emplace_back( imf, "x", &s );
   auto wr = cv.writer( sb );
   int c = code( [&] {
      wr.write( 1 );
      wr.close();
   } );
   std::cout << c << "\n";
   return c != 0;
}
static int compatibleScaling()
{
   W w;
   std::vector<SourceDestBuffer> sb2;
   sb2.emplace_back( w.imf, "x", w.x.data(), w.x.size(), true, true );
   auto wr = w.cv.writer( w.sb );
   int c = code( [&] { wr.write( sb2, 10 ); } );
   std::cout << c << "\n";
   return c != ErrorBuffersNotCompatible;
}
static int infiniteFloatXml()
{
   ImageFile imf( F, "w" );
   imf.root().set( "f", FloatNode( imf, std::numeric_limits<double>::infinity(), PrecisionDouble,
                                   -std::numeric_limits<double>::infinity(),
                                   std::numeric_limits<double>::infinity() ) );
   try
   {
      imf.close();
   }
   catch ( E57Exception & )
   {
      return 0;
   }
   catch ( std::exception &e )
   {
      std::cout << e.what() << "\n";
      return 1;
   }
   return 0;
}
static int chunkedStrings()
{
   {
      ImageFile imf( F, "w" );
      StructureNode proto( imf );
      proto.set( "x", StringNode( imf ) );
      VectorNode codecs( imf, true );
      CompressedVectorNode cv( imf, proto, codecs );
      imf.root().set( "points", cv );
      std::vector<std::string> s( 10, "abc" );
      std::vector<SourceDestBuffer> sb;
      sb.emplace_back( imf, "x", &s );
      auto wr = cv.writer( sb );
      wr.write( 10 );
      wr.close();
      imf.close();
   }
   ImageFile imf( F, "r" );
   CompressedVectorNode cv( imf.root().get( "points" ) );
   std::vector<std::string> s( 4 );
   std::vector<SourceDestBuffer> sb;
   sb.emplace_back( imf, "x", &s );
   auto rd = cv.reader( sb );
   unsigned n = 0;
   int c = code( [&] {
      while ( unsigned k = rd.read() )
         n += k;
   } );
   std::cout << "code " << c << " n " << n << "\n";
   return c != 0 || n != 10;
}
static int foreignNode()
{
   ImageFile a( F, "w" );
   ImageFile b( "defect2.e57", "w" );
   int c = code( [&] { a.root().set( "x", IntegerNode( b, 1, 0, 2 ) ); } );
   std::cout << c << "\n";
   return c != ErrorDifferentDestImageFile;
}
static int vectorByPath()
{
   ImageFile a( F, "w" );
   VectorNode v( a, false );
   a.root().set( "v", v );
   v.append( IntegerNode( a, 1, 0, 2 ) );
   int c = code( [&] { a.root().set( "v/1", StringNode( a, "x" ) ); } );
   std::cout << c << "\n";
   return c != ErrorHomogeneousViolation;
}
static int vectorByName()
{
   ImageFile a( F, "w" );
   VectorNode v( a, true );
   a.root().set( "v", v );
   v.append( IntegerNode( a, 1, 0, 2 ) );
   int c = code( [&] { a.root().set( "v/abc", StringNode( a, "x" ) ); } );
   std::cout << c << "\n";
   return c == 0;
}
static int trailingSlash()
{
   ImageFile a( F, "w" );
   StructureNode s( a );
   a.root().set( "s", s );
   int c = code( [&] { a.root().set( "s/", StringNode( a, "x" ) ); } );
   std::cout << c << "\n";
   return c != ErrorBadPathName;
}
static int setReadOnly()
{
   writeFile();
   ImageFile imf( F, "r" );
   int c = code( [&] { imf.root().set( "n", IntegerNode( imf, 1, 0, 2 ) ); } );
   int d = code( [&] { imf.extensionsAdd( "ext", "http://e" ); } );
   std::cout << c << " " << d << "\n";
   return c != ErrorFileReadOnly || d != ErrorFileReadOnly;
}

static int shortWrite()
{
   // The disk is full for a while: the last page of the blob is only stored in part
   signal( SIGXFSZ, SIG_IGN );
   rlimit full{};
   getrlimit( RLIMIT_FSIZE, &full );
   rlimit low = full;
   low.rlim_cur = 3 * 1024 - 100;
   int c = code( [&] {
      ImageFile imf( F, "w" );
      setrlimit( RLIMIT_FSIZE, &low );
      BlobNode b( imf, 3 * 1020 - 48 - 16 );
      setrlimit( RLIMIT_FSIZE, &full );
      imf.root().set( "b", b );
      imf.close();
   } );
   setrlimit( RLIMIT_FSIZE, &full );
   std::cout << "write " << c << "\n";
   if ( c != 0 )
   {
      return 0;
   }
   c = code( [] {
      ImageFile imf( F, "r" );
      uint8_t buf[2996];
      BlobNode( imf.root().get( "b" ) ).read( buf, 0, sizeof buf );
   } );
   std::cout << "read " << c << "\n";
   return c != 0;
}
static int throwingDestructor()
{
   signal( SIGXFSZ, SIG_IGN );
   rlimit full{};
   getrlimit( RLIMIT_FSIZE, &full );
   rlimit low = full;
   low.rlim_cur = 0;
   {
      Writer w( F, WriterOptions{} );
      setrlimit( RLIMIT_FSIZE, &low );
   }
   setrlimit( RLIMIT_FSIZE, &full );
   return 0;
}
static int leakedDescriptor()
{
   std::ofstream( F ) << "xyz";
   int before = dup( 0 );
   ::close( before );
   code( [] { ImageFile imf( F, "r" ); } );
   int after = dup( 0 );
   std::cout << before << " " << after << "\n";
   return before != after;
}
static int stalePacket()
{
   writeFile();
   CheckedFile cf( ustring( F ), CheckedFile::Read, 100 );
   PacketReadCache cache( &cf, 1 );
   char *pkt = nullptr;
   const uint64_t data = 48 + 32; // file header, section header
   cache.lock( data, pkt );
   std::string good( pkt, 16 );
   try
   {
      cache.lock( data + 4, pkt );
   }
   catch ( E57Exception & )
   {
   }
   cache.lock( data, pkt );
   return good != std::string( pkt, 16 );
}

static int cancelCloseFails()
{
   ImageFile imf( "cancel.e57", "w" );
   for ( int fd = 3; fd < 64; fd++ )
      ::close( fd ); // so that closing the image's own descriptor fails
   try
   {
      imf.cancel();
   }
   catch ( E57Exception & )
   {
      std::cout << "cancel raised an error; open: " << imf.isOpen() << "\n";
      return 1;
   }
   return 0;
}

static int partialBounds()
{
   Data3D in, out;
   in.colorLimits.colorGreenMaximum = 255;
   in.cartesianBounds.zMaximum = 12.5;
   in.sphericalBounds.azimuthEnd = 1.5;
   {
      Writer w( F, WriterOptions() );
      w.NewData3D( in );
   }
   Reader r( F, ReaderOptions() );
   r.ReadData3D( 0, out );
   return !( out.colorLimits == in.colorLimits && out.cartesianBounds == in.cartesianBounds &&
             out.sphericalBounds == in.sphericalBounds );
}

static int refusedScan()
{
   Writer w( F, WriterOptions() );
   Data3D d;
   d.pointFields.cartesianXField = true;
   d.pointFields.pointRangeNodeType = NumericalNodeType::Integer;
   const int c = code( [&] { w.NewData3D( d ); } );
   const int64_t n = w.GetRawData3D().childCount();
   std::cout << "code " << c << ", scans " << n << "\n";
   return !( c == ErrorInvalidNodeType && n == 0 );
}

static int zeroScale( bool intensity )
{
   Writer w( F, WriterOptions() );
   Data3D d;
   d.intensityLimits.intensityMaximum = 1.0;
   d.pointFields.intensityField = intensity;
   d.pointFields.timeStampField = !intensity;
   d.pointFields.intensityNodeType = d.pointFields.timeNodeType = NumericalNodeType::ScaledInteger;
   d.pointFields.timeMinimum = 0.0;
   d.pointFields.timeMaximum = 10.0;
   d.pointFields.timeScale = intensity ? 1.0 : 0.0;
   d.pointFields.intensityScale = intensity ? 0.0 : 1.0;
   const int c = code( [&] { w.NewData3D( d ); } );
   std::cout << "code " << c << "\n";
   return c != ErrorInvalidData3DValue;
}

static int zeroIntensityScale()
{
   return zeroScale( true );
}

static int zeroTimeScale()
{
   return zeroScale( false );
}

// 0 when a single precision value is read as it was written
static int singleTrip( float v )
{
   {
      ImageFile imf( F, "w" );
      imf.root().set( "f", FloatNode( imf, v, PrecisionSingle ) );
      imf.close();
   }
   double got = 0;
   int c = code( [&] {
      ImageFile imf( F, "r" );
      got = FloatNode( imf.root().get( "f" ) ).value();
      imf.close();
   } );
   std::cout << c << " " << got << "\n";
   return c != 0 || static_cast<float>( got ) != v;
}
static int singleLong()
{
   return singleTrip( 1000000064.0f );
}
static int singleGreatest()
{
   return singleTrip( std::numeric_limits<float>::max() );
}
// 0 when a compressed vector without a prototype is refused
static int noPrototype()
{
   writeFile();
   std::string s;
   {
      std::ifstream in( F, std::ios::binary );
      s.assign( std::istreambuf_iterator<char>( in ), std::istreambuf_iterator<char>() );
   }
   const size_t a = s.find( "<prototype" ), b = s.find( "</prototype>" );
   if ( a == std::string::npos || b == std::string::npos )
      return 2;
   for ( size_t i = a; i < b + 12; ++i )
      if ( i % 1024 < 1020 )
         s[i] = ' ';
   {
      std::ofstream out( F, std::ios::binary );
      out.write( s.data(), s.size() );
   }
   int c = code( [&] {
      ImageFile imf( F, "r", ChecksumNone );
      CompressedVectorNode cv( imf.root().get( "points" ) );
      std::vector<int64_t> x( 10 );
      std::vector<SourceDestBuffer> sb;
      sb.emplace_back( imf, "x", x.data(), x.size(), true );
      auto rd = cv.reader( sb );
      imf.close();
   } );
   std::cout << c << "\n";
   return c != ErrorBadPrototype;
}

struct Grouped : std::numpunct<char>
{
   char do_thousands_sep() const override
   {
      return ',';
   }
   std::string do_grouping() const override
   {
      return "\3";
   }
   char do_decimal_point() const override
   {
      return ';';
   }
};
// 0 when a file written under a locale with thousands separators reads back in the classic one
static int groupedIntegers()
{
   std::locale::global( std::locale( std::locale::classic(), new Grouped ) );
   {
      ImageFile imf( F, "w" );
      imf.root().set( "i", IntegerNode( imf, 1234567 ) );
      imf.close();
   }
   std::locale::global( std::locale::classic() );
   int64_t got = 0;
   int c = code( [&] {
      ImageFile imf( F, "r" );
      got = IntegerNode( imf.root().get( "i" ) ).value();
      imf.close();
   } );
   std::cout << c << " " << got << "\n";
   return c != 0 || got != 1234567;
}
static int groupedNames()
{
   std::locale::global( std::locale( std::locale::classic(), new Grouped ) );
   int c = code( [&] {
      ImageFile imf( F, "w" );
      VectorNode v( imf, true );
      imf.root().set( "v", v );
      for ( int i = 0; i < 1001; ++i )
         v.append( IntegerNode( imf, i ) );
      if ( v.get( 1000 ).elementName() != "1000" )
         throw E57Exception( ErrorInternal, v.get( 1000 ).elementName(), "", 0, "" );
      imf.close();
   } );
   std::locale::global( std::locale::classic() );
   std::cout << c << "\n";
   return c != 0;
}
static int groupedPaths()
{
   std::locale::global( std::locale( std::locale::classic(), new Grouped ) );
   int c = code( [&] {
      ImageFile imf( F, "w" );
      VectorNode v( imf, true );
      imf.root().set( "v", v );
      for ( int i = 0; i < 1001; ++i )
         imf.root().set( "/v/" + std::to_string( i ), IntegerNode( imf, i ) );
      imf.close();
   } );
   std::locale::global( std::locale::classic() );
   std::cout << c << "\n";
   return c != 0;
}

// 0 when a file whose XML is not well formed is refused without keeping memory
static int leakedMessages()
{
   writeFile();
   std::string s;
   {
      std::ifstream in( F, std::ios::binary );
      s.assign( std::istreambuf_iterator<char>( in ), std::istreambuf_iterator<char>() );
   }
   const size_t a = s.find( "</e57Root>" );
   if ( a == std::string::npos )
      return 2;
   s[a + 2] = 'x';
   {
      std::ofstream out( F, std::ios::binary );
      out.write( s.data(), s.size() );
   }
   size_t before = 0;
   int c = 0;
   for ( int i = 0; i < 210; ++i )
   {
      if ( i == 10 )
         before = __sanitizer_get_current_allocated_bytes();
      c = code( [&] { ImageFile imf( F, "r", ChecksumNone ); } );
   }
   const size_t after = __sanitizer_get_current_allocated_bytes();
   std::cout << c << " " << before << " " << after << "\n";
   return c != ErrorXMLParser || after > before + 1000;
}
// 0 when both copies of self-allocated point buffers can be destroyed
static int copiedBuffers()
{
   Data3D h;
   h.pointCount = 4;
   h.pointFields.cartesianXField = true;
   h.pointFields.cartesianYField = true;
   h.pointFields.cartesianZField = true;
   Data3DPointsFloat a( h );
   Data3DPointsFloat b( a );
   return 0;
}
// 0 when a descriptor whose close failed is not closed again
static int closedTwice()
{
   int other = -1;
   {
      CheckedFile f( std::string( "twice.bin" ), CheckedFile::Write, ChecksumAll );
      for ( int fd = 3; fd < 64; fd++ )
         ::close( fd );
      if ( code( [&] { f.close(); } ) != ErrorCloseFailed )
         return 2;
      for ( int i = 0; i < 61; ++i )
         other = ::dup( 1 ); // takes the number the file had
   }
   int open = 0;
   for ( int fd = 3; fd < 64; fd++ )
      open += ::fcntl( fd, F_GETFD ) >= 0;
   std::cout << other << " " << open << "\n";
   return open != 61;
}

// 0 when a number type outside the enumeration is refused
static int oddNodeType()
{
   Writer w( F, WriterOptions() );
   int bad = 0;
   for ( int time = 0; time < 2; ++time )
   {
      Data3D d;
      d.pointCount = 1;
      d.pointFields.cartesianXField = true;
      ( time ? d.pointFields.timeStampField : d.pointFields.intensityField ) = true;
      ( time ? d.pointFields.timeNodeType : d.pointFields.intensityNodeType ) =
         static_cast<NumericalNodeType>( 17 );
      try
      {
         w.NewData3D( d );
         bad = 1;
      }
      catch ( E57Exception &e )
      {
         if ( e.errorCode() != ErrorInvalidNodeType )
            bad = 1;
      }
   }
   return bad;
}

static int absentAngles()
{
   Writer w( F, WriterOptions() );
   Data3D d;
   d.pointCount = 4;
   d.pointFields.cartesianXField = true;
   d.pointFields.angleNodeType = NumericalNodeType::ScaledInteger;
   d.pointFields.angleScale = 0.001;
   Data3DPointsDouble buffers( d );
   for ( int i = 0; i < 4; ++i )
      buffers.cartesianX[i] = i;
   w.WriteData3DData( d, buffers );
   return 0;
}

int main( int argc, char **argv )
{
   std::map<std::string, int ( * )()> m = {
#define C( n ) { #n, n }
      C( doubleCloseWriter ), C( doubleCloseReader ), C( readAfterClose ), C( writeAfterClose ),
      C( readNewBuffers ), C( writeNewBuffers ), C( destroyedImage ), C( extensionsIndex ),
      C( extensionsIndexUri ), C( blobOverflow ), C( blobNegative ), C( boolFromInt ),
      C( real32Overflow ), C( floatToSingleWrite ), C( realToInt64 ), C( scaledToInt64 ),
      C( constantScaled ), C( paddedPacket ), C( compatibleScaling ), C( infiniteFloatXml ),
      C( chunkedStrings ), C( foreignNode ), C( vectorByPath ), C( vectorByName ),
      C( trailingSlash ), C( shortWrite ), C( throwingDestructor ), C( leakedDescriptor ), C( stalePacket ), C( setReadOnly ), C( cancelCloseFails ),
      C( partialBounds ), C( refusedScan ), C( zeroIntensityScale ), C( zeroTimeScale ), C( absentAngles ),
      C( oddNodeType ), C( singleLong ), C( singleGreatest ), C( noPrototype ),
      C( groupedIntegers ), C( groupedNames ), C( groupedPaths ),
      C( leakedMessages ), C( closedTwice ), C( copiedBuffers ) };
   if ( argc < 2 )
   {
      for ( auto &p : m )
         std::cout << p.first << "\n";
      return 0;
   }
   try
   {
      return m.at( argv[1] )();
   }
   catch ( E57Exception &e )
   {
      std::cout << "uncaught " << e.errorStr() << " " << e.context() << "\n";
      return 1;
   }
   catch ( std::exception &e )
   {
      std::cout << "uncaught " << e.what() << "\n";
      return 1;
   }
}
