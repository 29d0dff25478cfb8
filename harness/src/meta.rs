//! Information on each format: the list of README.md (kind, name, short name), with media types and extensions.

use file_format::{FileFormat as F, Kind as K};

/// Format, kind, name, short name ("" for none), media type, extension.
pub type Entry = (F, K, &'static str, &'static str, &'static str, &'static str);

pub const META: [Entry; 447] = [
    (F::Abiword, K::Document, "AbiWord", "ABW", "application/x-abiword", "abw"),
    (F::AbiwordTemplate, K::Document, "AbiWord Template", "AWT", "application/x-abiword-template", "awt"),
    (F::Ace, K::Archive, "ACE", "", "application/x-ace-compressed", "ace"),
    (F::ActionsMediaVideo, K::Video, "Actions Media Video", "AMV", "video/x-amv", "amv"),
    (F::Activemime, K::Other, "ActiveMime", "MSO", "application/x-mso", "mso"),
    (F::AdaptableScalableTextureCompression, K::Image, "Adaptable Scalable Texture Compression", "ASTC", "image/x-astc", "astc"),
    (F::AdaptiveMultiRate, K::Audio, "Adaptive Multi-Rate", "AMR", "audio/amr", "amr"),
    (F::AdditiveManufacturingFormat, K::Model, "Additive Manufacturing Format", "AMF", "application/x-amf", "amf"),
    (F::AdobeIllustratorArtwork, K::Image, "Adobe Illustrator Artwork", "AI", "application/vnd.adobe.illustrator", "ai"),
    (F::AdobeIndesignDocument, K::Document, "Adobe InDesign Document", "INDD", "application/x-indesign", "indd"),
    (F::AdobeIntegratedRuntime, K::Package, "Adobe Integrated Runtime", "AIR", "application/vnd.adobe.air-application-installer-package+zip", "air"),
    (F::AdobePhotoshopDocument, K::Image, "Adobe Photoshop Document", "PSD", "image/vnd.adobe.photoshop", "psd"),
    (F::AdvancedAudioCoding, K::Audio, "Advanced Audio Coding", "AAC", "audio/aac", "aac"),
    (F::AdvancedStreamRedirector, K::Playlist, "Advanced Stream Redirector", "ASX", "video/x-ms-asx", "asx"),
    (F::AdvancedSystemsFormat, K::Other, "Advanced Systems Format", "ASF", "application/vnd.ms-asf", "asf"),
    (F::AgeEncryption, K::Other, "age encryption", "", "application/x-age-encryption", "age"),
    (F::Alz, K::Archive, "ALZ", "", "application/x-alz-compressed", "alz"),
    (F::AmigaDiskFile, K::Disk, "Amiga Disk File", "ADF", "application/x-amiga-disk-format", "adf"),
    (F::AndroidAppBundle, K::Package, "Android App Bundle", "AAB", "application/vnd.android.aab", "aab"),
    (F::AndroidBinaryXml, K::Metadata, "Android Binary XML", "AXML", "application/vnd.android.axml", "xml"),
    (F::AndroidPackage, K::Package, "Android Package", "APK", "application/vnd.android.package-archive", "apk"),
    (F::AndroidResourceStorageContainer, K::Other, "Android Resource Storage Container", "ARSC", "application/vnd.android.arsc", "arsc"),
    (F::AnimatedPortableNetworkGraphics, K::Image, "Animated Portable Network Graphics", "APNG", "image/apng", "apng"),
    (F::ApacheArrowColumnar, K::Other, "Apache Arrow Columnar", "Arrow", "application/vnd.apache.arrow.file", "arrow"),
    (F::ApacheAvro, K::Other, "Apache Avro", "Avro", "application/vnd.apache.avro", "avro"),
    (F::ApacheParquet, K::Other, "Apache Parquet", "Parquet", "application/vnd.apache.parquet", "parquet"),
    (F::Appimage, K::Package, "AppImage", "", "application/x-appimage", "AppImage"),
    (F::AppleDiskImage, K::Disk, "Apple Disk Image", "DMG", "application/x-apple-diskimage", "dmg"),
    (F::AppleIconImage, K::Image, "Apple Icon Image", "ICNS", "image/x-icns", "icns"),
    (F::AppleItunesAudio, K::Audio, "Apple iTunes Audio", "M4A", "audio/x-m4a", "m4a"),
    (F::AppleItunesAudiobook, K::Audio, "Apple iTunes Audiobook", "M4B", "audio/mp4", "m4b"),
    (F::AppleItunesProtectedAudio, K::Audio, "Apple iTunes Protected Audio", "M4P", "audio/mp4", "m4p"),
    (F::AppleItunesVideo, K::Video, "Apple iTunes Video", "M4V", "video/x-m4v", "m4v"),
    (F::AppleQuicktime, K::Video, "Apple QuickTime", "MOV", "video/quicktime", "mov"),
    (F::ArbitraryBinaryData, K::Other, "Arbitrary Binary Data", "BIN", "application/octet-stream", "bin"),
    (F::ArchivedByRobertJung, K::Archive, "Archived by Robert Jung", "ARJ", "application/x-arj", "arj"),
    (F::Atari7800Rom, K::Rom, "Atari 7800 ROM", "A78", "application/x-atari-7800-rom", "a78"),
    (F::Atom, K::Other, "Atom", "", "application/atom+xml", "atom"),
    (F::Au, K::Audio, "Au", "", "audio/basic", "au"),
    (F::AudioCodec3, K::Audio, "Audio Codec 3", "AC-3", "audio/ac3", "ac3"),
    (F::AudioInterchangeFileFormat, K::Audio, "Audio Interchange File Format", "AIFF", "audio/x-aiff", "aiff"),
    (F::AudioVideoInterleave, K::Video, "Audio Video Interleave", "AVI", "video/avi", "avi"),
    (F::AudioVisualResearch, K::Audio, "Audio Visual Research", "AVR", "audio/x-avr", "avr"),
    (F::AutocadDrawing, K::Model, "AutoCAD Drawing", "DWG", "application/x-dwg", "dwg"),
    (F::Autodesk123d, K::Model, "Autodesk 123D", "123DX", "model/x-123dx", "123dx"),
    (F::AutodeskAlias, K::Model, "Autodesk Alias", "WIRE", "model/x-wire", "wire"),
    (F::AutodeskAnimator, K::Video, "Autodesk Animator", "FLI", "video/x-fli", "fli"),
    (F::AutodeskAnimatorPro, K::Video, "Autodesk Animator Pro", "FLC", "video/x-flc", "flc"),
    (F::AutodeskInventorAssembly, K::Model, "Autodesk Inventor Assembly", "IAM", "model/x-iam", "iam"),
    (F::AutodeskInventorDrawing, K::Model, "Autodesk Inventor Drawing", "IDW", "model/x-idw", "idw"),
    (F::AutodeskInventorPart, K::Model, "Autodesk Inventor Part", "IPT", "model/x-ipt", "ipt"),
    (F::AutodeskInventorPresentation, K::Model, "Autodesk Inventor Presentation", "IPN", "model/x-ipn", "ipn"),
    (F::Av1ImageFileFormat, K::Image, "AV1 Image File Format", "AVIF", "image/avif", "avif"),
    (F::Av1ImageFileFormatSequence, K::Image, "AV1 Image File Format Sequence", "AVIFS", "image/avif-sequence", "avifs"),
    (F::BdavMpeg2TransportStream, K::Video, "BDAV MPEG-2 Transport Stream", "M2TS", "video/mp2t", "m2ts"),
    (F::BetterPortableGraphics, K::Image, "Better Portable Graphics", "BPG", "image/bpg", "bpg"),
    (F::Bittorrent, K::Metadata, "BitTorrent", "Torrent", "application/x-bittorrent", "torrent"),
    (F::Blender, K::Model, "Blender", "BLEND", "application/x-blender", "blend"),
    (F::BmfontAscii, K::Font, "BMFont ASCII", "FNT", "application/x-angelcode-bmfont", "fnt"),
    (F::BmfontBinary, K::Font, "BMFont Binary", "FNT", "application/x-angelcode-bmfont", "fnt"),
    (F::BroadBandEbook, K::Ebook, "Broad Band eBook", "BBeB", "application/x-lrf", "lrf"),
    (F::Bzip, K::Compressed, "bzip", "BZ", "application/x-bzip", "bz"),
    (F::Bzip2, K::Compressed, "bzip2", "BZ2", "application/x-bzip2", "bz2"),
    (F::Bzip3, K::Compressed, "BZip3", "BZ3", "application/x-bzip3", "bz3"),
    (F::Cabinet, K::Archive, "Cabinet", "CAB", "application/vnd.ms-cab-compressed", "cab"),
    (F::CanonRaw, K::Image, "Canon Raw", "CRW", "image/x-canon-crw", "crw"),
    (F::CanonRaw2, K::Image, "Canon Raw 2", "CR2", "image/x-canon-cr2", "cr2"),
    (F::CanonRaw3, K::Image, "Canon Raw 3", "CR3", "image/x-canon-cr3", "cr3"),
    (F::CdAudio, K::Metadata, "CD Audio", "CDA", "application/x-cdf", "cda"),
    (F::Cinema4d, K::Model, "Cinema 4D", "C4D", "model/x-c4d", "c4d"),
    (F::Cineon, K::Image, "Cineon", "CIN", "image/cineon", "cin"),
    (F::CircuitDiagramDocument, K::Diagram, "Circuit Diagram Document", "CDDX", "application/vnd.circuitdiagram.document.main+xml", "cddx"),
    (F::ClojureScript, K::Other, "Clojure Script", "", "text/x-clojure", "clj"),
    (F::CollaborativeDesignActivity, K::Model, "Collaborative Design Activity", "COLLADA", "model/vnd.collada+xml", "dae"),
    (F::Commodore64Cartridge, K::Rom, "Commodore 64 Cartridge", "CRT", "application/x-commodore-64-cartridge", "crt"),
    (F::Commodore64Program, K::Executable, "Commodore 64 Program", "PRG", "application/x-commodore-64-program", "prg"),
    (F::CommonObjectFileFormat, K::Executable, "Common Object File Format", "COFF", "application/x-coff", "coff"),
    (F::CompoundFileBinary, K::Other, "Compound File Binary", "CFB", "application/x-cfb", "cfb"),
    (F::CorelPresentations, K::Presentation, "Corel Presentations", "SHW", "application/x-corelpresentations", "shw"),
    (F::CorelPresentations7, K::Presentation, "Corel Presentations 7", "SHW", "application/x-corelpresentations", "shw"),
    (F::Cpio, K::Archive, "cpio", "", "application/x-cpio", "cpio"),
    (F::CreativeVoice, K::Audio, "Creative Voice", "VOC", "audio/x-voc", "voc"),
    (F::DalvikExecutable, K::Executable, "Dalvik Executable", "DEX", "application/vnd.android.dex", "dex"),
    (F::DebianPackage, K::Package, "Debian Package", "DEB", "application/vnd.debian.binary-package", "deb"),
    (F::DerCertificate, K::Other, "DER Certificate", "DER", "application/x-x509-ca-cert", "der"),
    (F::DesignWebFormat, K::Model, "Design Web Format", "DWF", "model/vnd.dwf", "dwf"),
    (F::DesignWebFormatXps, K::Model, "Design Web Format XPS", "DWFX", "model/vnd.dwfx+xps", "dwfx"),
    (F::DigitalImagingAndCommunicationsInMedicine, K::Other, "Digital Imaging and Communications in Medicine", "DICOM", "application/dicom", "dcm"),
    (F::DigitalPictureExchange, K::Image, "Digital Picture Exchange", "DPX", "image/x-dpx", "dpx"),
    (F::Djvu, K::Document, "DjVu", "", "image/vnd.djvu", "djvu"),
    (F::DrawingExchangeFormatAscii, K::Model, "Drawing Exchange Format ASCII", "DXF", "application/x-dxf", "dxf"),
    (F::DrawingExchangeFormatBinary, K::Model, "Drawing Exchange Format Binary", "DXF", "application/x-dxf", "dxf"),
    (F::Drawio, K::Diagram, "draw.io", "DRAWIO", "application/vnd.jgraph.mxfile", "drawio"),
    (F::DynamicLinkLibrary, K::Executable, "Dynamic Link Library", "DLL", "application/vnd.microsoft.portable-executable", "dll"),
    (F::EightBitSampledVoice, K::Audio, "8-Bit Sampled Voice", "8SVX", "audio/x-8svx", "8svx"),
    (F::ElectronicPublication, K::Ebook, "Electronic Publication", "EPUB", "application/epub+zip", "epub"),
    (F::EmbeddedOpentype, K::Font, "Embedded OpenType", "EOT", "application/vnd.ms-fontobject", "eot"),
    (F::Empty, K::Other, "Empty", "", "application/x-empty", "empty"),
    (F::EncapsulatedPostscript, K::Image, "Encapsulated PostScript", "EPS", "application/eps", "eps"),
    (F::EnhancedMetafile, K::Image, "Enhanced Metafile", "EMF", "image/emf", "emf"),
    (F::EnterpriseApplicationArchive, K::Package, "Enterprise Application Archive", "EAR", "application/java-archive", "ear"),
    (F::ExecutableAndLinkableFormat, K::Executable, "Executable and Linkable Format", "ELF", "application/x-executable", "elf"),
    (F::ExperimentalComputingFacility, K::Image, "Experimental Computing Facility", "XCF", "image/x-xcf", "xcf"),
    (F::Extensible3d, K::Model, "Extensible 3D", "X3D", "model/x3d+xml", "x3d"),
    (F::ExtensibleArchive, K::Archive, "Extensible Archive", "XAR", "application/x-xar", "xar"),
    (F::ExtensibleBinaryMetaLanguage, K::Other, "Extensible Binary Meta Language", "EBML", "application/x-ebml", "ebml"),
    (F::ExtensibleMarkupLanguage, K::Other, "Extensible Markup Language", "XML", "text/xml", "xml"),
    (F::ExtensibleStylesheetLanguageTransformations, K::Other, "Extensible Stylesheet Language Transformations", "XSLT", "application/xslt+xml", "xsl"),
    (F::Farbfeld, K::Image, "farbfeld", "FF", "image/x-ff", "ff"),
    (F::Fasttracker2ExtendedModule, K::Audio, "FastTracker 2 Extended Module", "XM", "audio/x-xm", "xm"),
    (F::Fictionbook, K::Ebook, "FictionBook", "FB2", "application/x-fb2+xml", "fb2"),
    (F::FictionbookZip, K::Ebook, "FictionBook ZIP", "FBZ", "application/x-fbz", "fbz"),
    (F::FigletFont, K::Font, "FIGlet Font", "FLF", "application/x-figlet", "flf"),
    (F::FigmaDesign, K::Image, "Figma Design", "FIG", "image/x-figma", "fig"),
    (F::Filmbox, K::Model, "Filmbox", "FBX", "application/vnd.autodesk.fbx", "fbx"),
    (F::FlashCs5Project, K::Other, "Flash CS5 Project", "FLA", "application/vnd.adobe.fla", "fla"),
    (F::FlashMp4Audio, K::Audio, "Flash MP4 Audio", "F4A", "audio/mp4", "f4a"),
    (F::FlashMp4Audiobook, K::Audio, "Flash MP4 Audiobook", "F4B", "audio/mp4", "f4b"),
    (F::FlashMp4ProtectedVideo, K::Video, "Flash MP4 Protected Video", "F4P", "video/mp4", "f4p"),
    (F::FlashMp4Video, K::Video, "Flash MP4 Video", "F4V", "video/mp4", "f4v"),
    (F::FlashProject, K::Other, "Flash Project", "FLA", "application/vnd.adobe.fla", "fla"),
    (F::FlashVideo, K::Video, "Flash Video", "FLV", "video/x-flv", "flv"),
    (F::FlexibleAndInteroperableDataTransfer, K::Geospatial, "Flexible and Interoperable Data Transfer", "FIT", "application/x-fit", "fit"),
    (F::FlexibleImageTransportSystem, K::Other, "Flexible Image Transport System", "FITS", "application/fits", "fits"),
    (F::FreeLosslessAudioCodec, K::Audio, "Free Lossless Audio Codec", "FLAC", "audio/flac", "flac"),
    (F::FreeLosslessImageFormat, K::Image, "Free Lossless Image Format", "FLIF", "image/flif", "flif"),
    (F::FujifilmRaw, K::Image, "Fujifilm Raw", "RAF", "image/x-fuji-raf", "raf"),
    (F::Fusion360, K::Model, "Fusion 360", "F3D", "model/x-f3d", "f3d"),
    (F::GameBoyAdvanceRom, K::Rom, "Game Boy Advance ROM", "GBA", "application/x-gba-rom", "gba"),
    (F::GameBoyColorRom, K::Rom, "Game Boy Color ROM", "GBC", "application/x-gameboy-color-rom", "gbc"),
    (F::GameBoyRom, K::Rom, "Game Boy ROM", "GB", "application/x-gameboy-rom", "gb"),
    (F::GameGearRom, K::Rom, "Game Gear ROM", "GG", "application/x-gamegear-rom", "gg"),
    (F::GeographyMarkupLanguage, K::Geospatial, "Geography Markup Language", "GML", "application/gml+xml", "gml"),
    (F::GettextMachineObject, K::Other, "gettext Machine Object", "MO", "application/x-gettext-translation", "mo"),
    (F::GlTransmissionFormatBinary, K::Model, "GL Transmission Format Binary", "GLB", "model/gltf-binary", "glb"),
    (F::Glyphs, K::Font, "Glyphs", "", "font/x-glyphs", "glyphs"),
    (F::GoogleChromeExtension, K::Package, "Google Chrome Extension", "CRX", "application/x-google-chrome-extension", "crx"),
    (F::GoogleDraco, K::Model, "Google Draco", "Draco", "model/x-draco", "drc"),
    (F::GpsExchangeFormat, K::Geospatial, "GPS Exchange Format", "GPX", "application/gpx+xml", "gpx"),
    (F::GraphicsInterchangeFormat, K::Image, "Graphics Interchange Format", "GIF", "image/gif", "gif"),
    (F::Gzip, K::Compressed, "gzip", "GZ", "application/gzip", "gz"),
    (F::HighEfficiencyImageCoding, K::Image, "High Efficiency Image Coding", "HEIC", "image/heic", "heic"),
    (F::HighEfficiencyImageCodingSequence, K::Image, "High Efficiency Image Coding Sequence", "HEICS", "image/heic-sequence", "heics"),
    (F::HighEfficiencyImageFileFormat, K::Image, "High Efficiency Image File Format", "HEIF", "image/heif", "heif"),
    (F::HighEfficiencyImageFileFormatSequence, K::Image, "High Efficiency Image File Format Sequence", "HEIFS", "image/heif-sequence", "heifs"),
    (F::HypertextMarkupLanguage, K::Other, "HyperText Markup Language", "HTML", "text/html", "html"),
    (F::Icalendar, K::Other, "iCalendar", "ICS", "text/calendar", "ics"),
    (F::IccProfile, K::Other, "ICC Profile", "ICC", "application/vnd.iccprofile", "icc"),
    (F::Id3v2, K::Metadata, "ID3v2", "ID3", "application/x-id3v2", "id3"),
    (F::ImpulseTrackerModule, K::Audio, "Impulse Tracker Module", "IT", "audio/x-it", "it"),
    (F::IndesignMarkupLanguage, K::Document, "InDesign Markup Language", "IDML", "application/vnd.adobe.indesign-idml-package", "idml"),
    (F::InitialGraphicsExchangeSpecification, K::Model, "Initial Graphics Exchange Specification", "IGES", "model/iges", "iges"),
    (F::InterQuakeExport, K::Model, "Inter-Quake Export", "IQE", "model/x-iqe", "iqe"),
    (F::InterQuakeModel, K::Model, "Inter-Quake Model", "IQM", "model/x-iqm", "iqm"),
    (F::IosAppStorePackage, K::Package, "iOS App Store Package", "IPA", "application/x-ios-app", "ipa"),
    (F::Iso9660, K::Disk, "ISO 9660", "ISO", "application/x-iso9660-image", "iso"),
    (F::JavaArchive, K::Package, "Java Archive", "JAR", "application/java-archive", "jar"),
    (F::JavaClass, K::Executable, "Java Class", "", "application/java-vm", "class"),
    (F::JavaKeystore, K::Other, "Java KeyStore", "JKS", "application/x-java-keystore", "jks"),
    (F::JointPhotographicExpertsGroup, K::Image, "Joint Photographic Experts Group", "JPEG", "image/jpeg", "jpg"),
    (F::Jpeg2000Codestream, K::Image, "JPEG 2000 Codestream", "J2C", "image/x-jp2-codestream", "j2c"),
    (F::Jpeg2000Part1, K::Image, "JPEG 2000 Part 1", "JP2", "image/jp2", "jp2"),
    (F::Jpeg2000Part2, K::Image, "JPEG 2000 Part 2", "JPX", "image/jpx", "jpx"),
    (F::Jpeg2000Part3, K::Video, "JPEG 2000 Part 3", "MJ2", "video/mj2", "mj2"),
    (F::Jpeg2000Part6, K::Image, "JPEG 2000 Part 6", "JPM", "image/jpm", "jpm"),
    (F::JpegExtendedRange, K::Image, "JPEG Extended Range", "JXR", "image/jxr", "jxr"),
    (F::JpegLs, K::Image, "JPEG-LS", "JLS", "image/jls", "jls"),
    (F::JpegNetworkGraphics, K::Image, "JPEG Network Graphics", "JNG", "image/x-jng", "jng"),
    (F::JpegXl, K::Image, "JPEG XL", "JXL", "image/jxl", "jxl"),
    (F::JsonFeed, K::Other, "JSON Feed", "", "application/feed+json", "json"),
    (F::KeyholeMarkupLanguage, K::Geospatial, "Keyhole Markup Language", "KML", "application/vnd.google-earth.kml+xml", "kml"),
    (F::KeyholeMarkupLanguageZip, K::Geospatial, "Keyhole Markup Language ZIP", "KMZ", "application/vnd.google-earth.kmz", "kmz"),
    (F::KhronosTexture, K::Image, "Khronos Texture", "KTX", "image/ktx", "ktx"),
    (F::KhronosTexture2, K::Image, "Khronos Texture 2", "KTX2", "image/ktx2", "ktx2"),
    (F::Larc, K::Archive, "LArc", "LZS", "application/x-lzh-compressed", "lzs"),
    (F::Latex, K::Document, "LaTeX", "TeX", "text/x-tex", "tex"),
    (F::LempelZivFiniteStateEntropy, K::Compressed, "Lempel-Ziv Finite State Entropy", "LZFSE", "application/x-lzfse", "lzfse"),
    (F::LempelZivMarkovChainAlgorithm, K::Compressed, "Lempel-Ziv-Markov chain algorithm", "LZMA", "application/x-lzma", "lzma"),
    (F::Lha, K::Archive, "LHA", "", "application/x-lzh-compressed", "lzh"),
    (F::LinearExecutable, K::Executable, "Linear Executable", "LE", "application/x-dosexec", "exe"),
    (F::LlvmBitcode, K::Executable, "LLVM Bitcode", "BC", "application/x-llvm", "bc"),
    (F::LongRangeZip, K::Compressed, "Long Range ZIP", "LRZIP", "application/x-lrzip", "lrz"),
    (F::LuaBytecode, K::Executable, "Lua Bytecode", "", "application/x-lua-bytecode", "luac"),
    (F::LuaScript, K::Other, "Lua Script", "", "text/x-lua", "lua"),
    (F::Lz4, K::Compressed, "LZ4", "", "application/x-lz4", "lz4"),
    (F::Lzip, K::Compressed, "lzip", "LZ", "application/x-lzip", "lz"),
    (F::Lzop, K::Compressed, "lzop", "LZO", "application/x-lzop", "lzo"),
    (F::MachO, K::Executable, "Mach-O", "", "application/x-mach-binary", "mach"),
    (F::MacosAlias, K::Metadata, "macOS Alias", "", "application/x-apple-alias", "alias"),
    (F::Magicavoxel, K::Model, "MagicaVoxel", "VOX", "model/x-vox", "vox"),
    (F::MagickImageFileFormat, K::Image, "Magick Image File Format", "MIFF", "image/x-miff", "miff"),
    (F::MaterialExchangeFormat, K::Video, "Material Exchange Format", "MXF", "application/mxf", "mxf"),
    (F::MathematicalMarkupLanguage, K::Formula, "Mathematical Markup Language", "MathML", "application/mathml+xml", "mathml"),
    (F::Matroska3dVideo, K::Video, "Matroska 3D Video", "MK3D", "video/matroska", "mk3d"),
    (F::MatroskaAudio, K::Audio, "Matroska Audio", "MKA", "audio/matroska", "mka"),
    (F::MatroskaSubtitles, K::Subtitle, "Matroska Subtitles", "MKS", "application/x-matroska", "mks"),
    (F::MatroskaVideo, K::Video, "Matroska Video", "MKV", "video/matroska", "mkv"),
    (F::MayaAscii, K::Model, "Maya ASCII", "MA", "application/x-maya-ascii", "ma"),
    (F::MayaBinary, K::Model, "Maya Binary", "MB", "application/x-maya-binary", "mb"),
    (F::MegaDriveRom, K::Rom, "Mega Drive ROM", "MD", "application/x-genesis-rom", "md"),
    (F::MetaInformationEncapsulation, K::Metadata, "Meta Information Encapsulation", "MIE", "application/x-mie", "mie"),
    (F::MicrosoftAccess2007Database, K::Database, "Microsoft Access 2007 Database", "ACCDB", "application/x-msaccess", "accdb"),
    (F::MicrosoftAccessDatabase, K::Database, "Microsoft Access Database", "MDB", "application/x-msaccess", "mdb"),
    (F::MicrosoftCompiledHtmlHelp, K::Other, "Microsoft Compiled HTML Help", "CHM", "application/vnd.ms-htmlhelp", "chm"),
    (F::MicrosoftDigitalVideoRecording, K::Video, "Microsoft Digital Video Recording", "DVR-MS", "video/x-ms-asf", "dvr-ms"),
    (F::MicrosoftDirectdrawSurface, K::Image, "Microsoft DirectDraw Surface", "DDS", "image/vnd.ms-dds", "dds"),
    (F::MicrosoftExcelSpreadsheet, K::Spreadsheet, "Microsoft Excel Spreadsheet", "XLS", "application/vnd.ms-excel", "xls"),
    (F::MicrosoftPowerpointPresentation, K::Presentation, "Microsoft PowerPoint Presentation", "PPT", "application/vnd.ms-powerpoint", "ppt"),
    (F::MicrosoftProjectPlan, K::Other, "Microsoft Project Plan", "MPP", "application/vnd.ms-project", "mpp"),
    (F::MicrosoftPublisherDocument, K::Document, "Microsoft Publisher Document", "PUB", "application/vnd.ms-publisher", "pub"),
    (F::MicrosoftReader, K::Ebook, "Microsoft Reader", "LIT", "application/x-ms-reader", "lit"),
    (F::MicrosoftSoftwareInstaller, K::Package, "Microsoft Software Installer", "MSI", "application/x-msi", "msi"),
    (F::MicrosoftVirtualHardDisk, K::Disk, "Microsoft Virtual Hard Disk", "VHD", "application/x-vhd", "vhd"),
    (F::MicrosoftVirtualHardDisk2, K::Disk, "Microsoft Virtual Hard Disk 2", "VHDX", "application/x-vhdx", "vhdx"),
    (F::MicrosoftVisioDrawing, K::Diagram, "Microsoft Visio Drawing", "VSD", "application/vnd.visio", "vsd"),
    (F::MicrosoftVisualStudioExtension, K::Package, "Microsoft Visual Studio Extension", "VSIX", "application/vsix", "vsix"),
    (F::MicrosoftVisualStudioSolution, K::Other, "Microsoft Visual Studio Solution", "SLN", "application/vnd.ms-developer", "sln"),
    (F::MicrosoftWordDocument, K::Document, "Microsoft Word Document", "DOC", "application/msword", "doc"),
    (F::MicrosoftWorks6Spreadsheet, K::Spreadsheet, "Microsoft Works 6 Spreadsheet", "XLR", "application/vnd.ms-works", "xlr"),
    (F::MicrosoftWorksDatabase, K::Database, "Microsoft Works Database", "WDB", "application/vnd.ms-works-db", "wdb"),
    (F::MicrosoftWorksSpreadsheet, K::Spreadsheet, "Microsoft Works Spreadsheet", "WKS", "application/vnd.ms-works", "wks"),
    (F::MicrosoftWorksWordProcessor, K::Document, "Microsoft Works Word Processor", "WPS", "application/vnd.ms-works", "wps"),
    (F::MicrosoftWrite, K::Document, "Microsoft Write", "WRI", "application/x-mswrite", "wri"),
    (F::Mobipocket, K::Ebook, "Mobipocket", "MOBI", "application/x-mobipocket-ebook", "mobi"),
    (F::Model3dAscii, K::Model, "Model 3D ASCII", "A3D", "text/x-3d-model", "a3d"),
    (F::Model3dBinary, K::Model, "Model 3D Binary", "M3D", "model/x-3d-model", "m3d"),
    (F::MonkeysAudio, K::Audio, "Monkey's Audio", "APE", "audio/x-ape", "ape"),
    (F::MozillaArchive, K::Archive, "Mozilla Archive", "MAR", "application/x-mozilla-archive", "mar"),
    (F::Mp3Url, K::Playlist, "MP3 URL", "M3U", "audio/x-mpegurl", "m3u"),
    (F::Mpeg12AudioLayer2, K::Audio, "MPEG-1/2 Audio Layer 2", "MP2", "audio/mpeg", "mp2"),
    (F::Mpeg12AudioLayer3, K::Audio, "MPEG-1/2 Audio Layer 3", "MP3", "audio/mpeg", "mp3"),
    (F::Mpeg12Video, K::Video, "MPEG-1/2 Video", "MPG", "video/mpeg", "mpg"),
    (F::Mpeg2TransportStream, K::Video, "MPEG-2 Transport Stream", "TS", "video/mp2t", "ts"),
    (F::Mpeg4Part14, K::Other, "MPEG-4 Part 14", "MP4", "application/mp4", "mp4"),
    (F::Mpeg4Part14Audio, K::Audio, "MPEG-4 Part 14 Audio", "MP4", "audio/mp4", "mp4"),
    (F::Mpeg4Part14Subtitles, K::Subtitle, "MPEG-4 Part 14 Subtitles", "MP4", "application/mp4", "mp4"),
    (F::Mpeg4Part14Video, K::Video, "MPEG-4 Part 14 Video", "MP4", "video/mp4", "mp4"),
    (F::MpegDashMpd, K::Playlist, "MPEG-DASH MPD", "MPD", "application/dash+xml", "mpd"),
    (F::MsDosBatch, K::Other, "MS-DOS Batch", "Batch", "text/x-msdos-batch", "bat"),
    (F::MsDosExecutable, K::Executable, "MS-DOS Executable", "EXE", "application/x-dosexec", "exe"),
    (F::Mtv, K::Video, "MTV", "", "video/x-mtv", "mtv"),
    (F::MultiLayerArchive, K::Archive, "Multi Layer Archive", "MLA", "application/x-mla", "mla"),
    (F::MultipleImageNetworkGraphics, K::Image, "Multiple-image Network Graphics", "MNG", "image/x-mng", "mng"),
    (F::Musepack, K::Audio, "Musepack", "MPC", "audio/x-musepack", "mpc"),
    (F::MusicalInstrumentDigitalInterface, K::Audio, "Musical Instrument Digital Interface", "MIDI", "audio/midi", "mid"),
    (F::Musicxml, K::Other, "MusicXML", "", "application/vnd.recordare.musicxml+xml", "musicxml"),
    (F::MusicxmlZip, K::Other, "MusicXML ZIP", "MXL", "application/vnd.recordare.musicxml", "mxl"),
    (F::NeoGeoPocketColorRom, K::Rom, "Neo Geo Pocket Color ROM", "NGC", "application/x-neo-geo-pocket-rom", "ngc"),
    (F::NeoGeoPocketRom, K::Rom, "Neo Geo Pocket ROM", "NGP", "application/x-neo-geo-pocket-rom", "ngp"),
    (F::NewExecutable, K::Executable, "New Executable", "NE", "application/x-ms-ne-executable", "exe"),
    (F::NikonElectronicFile, K::Image, "Nikon Electronic File", "NEF", "image/x-nikon-nef", "nef"),
    (F::Nintendo64Rom, K::Rom, "Nintendo 64 ROM", "Z64", "application/x-n64-rom", "z64"),
    (F::NintendoDsRom, K::Rom, "Nintendo DS ROM", "NDS", "application/x-nintendo-ds-rom", "nds"),
    (F::NintendoEntertainmentSystemRom, K::Rom, "Nintendo Entertainment System ROM", "NES", "application/x-nintendo-nes-rom", "nes"),
    (F::NintendoSwitchExecutable, K::Executable, "Nintendo Switch Executable", "NSO", "application/x-nintendo-switch-executable", "nso"),
    (F::NintendoSwitchPackage, K::Package, "Nintendo Switch Package", "NSP", "application/x-nintendo-switch-package", "nsp"),
    (F::NintendoSwitchRom, K::Rom, "Nintendo Switch ROM", "XCI", "application/x-nintendo-switch-rom", "xci"),
    (F::OfficeOpenXmlDocument, K::Document, "Office Open XML Document", "DOCX", "application/vnd.openxmlformats-officedocument.wordprocessingml.document", "docx"),
    (F::OfficeOpenXmlDrawing, K::Diagram, "Office Open XML Drawing", "VSDX", "application/vnd.ms-visio.drawing.main+xml", "vsdx"),
    (F::OfficeOpenXmlPresentation, K::Presentation, "Office Open XML Presentation", "PPTX", "application/vnd.openxmlformats-officedocument.presentationml.presentation", "pptx"),
    (F::OfficeOpenXmlSpreadsheet, K::Spreadsheet, "Office Open XML Spreadsheet", "XLSX", "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet", "xlsx"),
    (F::OggFlac, K::Audio, "Ogg FLAC", "OGA", "audio/ogg", "oga"),
    (F::OggMedia, K::Video, "Ogg Media", "OGM", "video/ogg", "ogm"),
    (F::OggMultiplexedMedia, K::Other, "Ogg Multiplexed Media", "OGX", "application/ogg", "ogx"),
    (F::OggOpus, K::Audio, "Ogg Opus", "Opus", "audio/opus", "opus"),
    (F::OggSpeex, K::Audio, "Ogg Speex", "Speex", "audio/ogg", "spx"),
    (F::OggTheora, K::Video, "Ogg Theora", "Theora", "video/ogg", "ogv"),
    (F::OggVorbis, K::Audio, "Ogg Vorbis", "Vorbis", "audio/ogg", "ogg"),
    (F::OlympusRawFormat, K::Image, "Olympus Raw Format", "ORF", "image/x-olympus-orf", "orf"),
    (F::OpendocumentDatabase, K::Database, "OpenDocument Database", "ODB", "application/vnd.oasis.opendocument.database", "odb"),
    (F::OpendocumentFormula, K::Formula, "OpenDocument Formula", "ODF", "application/vnd.oasis.opendocument.formula", "odf"),
    (F::OpendocumentFormulaTemplate, K::Formula, "OpenDocument Formula Template", "OTF", "application/vnd.oasis.opendocument.formula-template", "otf"),
    (F::OpendocumentGraphics, K::Image, "OpenDocument Graphics", "ODG", "application/vnd.oasis.opendocument.graphics", "odg"),
    (F::OpendocumentGraphicsTemplate, K::Image, "OpenDocument Graphics Template", "OTG", "application/vnd.oasis.opendocument.graphics-template", "otg"),
    (F::OpendocumentPresentation, K::Presentation, "OpenDocument Presentation", "ODP", "application/vnd.oasis.opendocument.presentation", "odp"),
    (F::OpendocumentPresentationTemplate, K::Presentation, "OpenDocument Presentation Template", "OTP", "application/vnd.oasis.opendocument.presentation-template", "otp"),
    (F::OpendocumentSpreadsheet, K::Spreadsheet, "OpenDocument Spreadsheet", "ODS", "application/vnd.oasis.opendocument.spreadsheet", "ods"),
    (F::OpendocumentSpreadsheetTemplate, K::Spreadsheet, "OpenDocument Spreadsheet Template", "OTS", "application/vnd.oasis.opendocument.spreadsheet-template", "ots"),
    (F::OpendocumentText, K::Document, "OpenDocument Text", "ODT", "application/vnd.oasis.opendocument.text", "odt"),
    (F::OpendocumentTextMaster, K::Document, "OpenDocument Text Master", "ODM", "application/vnd.oasis.opendocument.text-master", "odm"),
    (F::OpendocumentTextMasterTemplate, K::Document, "OpenDocument Text Master Template", "OTM", "application/vnd.oasis.opendocument.text-master-template", "otm"),
    (F::OpendocumentTextTemplate, K::Document, "OpenDocument Text Template", "OTT", "application/vnd.oasis.opendocument.text-template", "ott"),
    (F::Openexr, K::Image, "OpenEXR", "EXR", "image/x-exr", "exr"),
    (F::Opennurbs, K::Model, "openNURBS", "3DM", "model/x-3dm", "3dm"),
    (F::Openraster, K::Image, "OpenRaster", "ORA", "image/openraster", "ora"),
    (F::Opentype, K::Font, "OpenType", "OTF", "font/otf", "otf"),
    (F::Openxps, K::Document, "OpenXPS", "OXPS", "application/oxps", "xps"),
    (F::OptimizedDalvikExecutable, K::Executable, "Optimized Dalvik Executable", "DEY", "application/vnd.android.dey", "dey"),
    (F::PanasonicRaw, K::Image, "Panasonic Raw", "RW2", "image/x-panasonic-rw2", "rw2"),
    (F::PcapDump, K::Other, "PCAP Dump", "PCAP", "application/vnd.tcpdump.pcap", "pcap"),
    (F::PcapNextGenerationDump, K::Other, "PCAP Next Generation Dump", "PCAPNG", "application/x-pcapng", "pcapng"),
    (F::PemCertificate, K::Other, "PEM Certificate", "PEM", "application/x-pem-file", "crt"),
    (F::PemCertificateSigningRequest, K::Other, "PEM Certificate Signing Request", "PEM", "application/x-pem-file", "csr"),
    (F::PemPrivateKey, K::Other, "PEM Private Key", "PEM", "application/x-pem-file", "key"),
    (F::PemPublicKey, K::Other, "PEM Public Key", "PEM", "application/x-pem-file", "pub"),
    (F::PerlScript, K::Other, "Perl Script", "", "text/x-perl", "pl"),
    (F::PersonalStorageTable, K::Other, "Personal Storage Table", "PST", "application/vnd.ms-outlook", "pst"),
    (F::PgpMessage, K::Other, "PGP Message", "PGP", "application/pgp", "asc"),
    (F::PgpPrivateKeyBlock, K::Other, "PGP Private Key Block", "PGP", "application/pgp-keys", "asc"),
    (F::PgpPublicKeyBlock, K::Other, "PGP Public Key Block", "PGP", "application/pgp-keys", "asc"),
    (F::PgpSignature, K::Other, "PGP Signature", "PGP", "application/pgp-signature", "asc"),
    (F::PgpSignedMessage, K::Other, "PGP Signed Message", "PGP", "application/pgp", "asc"),
    (F::PictureExchange, K::Image, "Picture Exchange", "PCX", "image/x-pcx", "pcx"),
    (F::PlainText, K::Other, "Plain Text", "TXT", "text/plain", "txt"),
    (F::Pmarc, K::Archive, "PMarc", "PMA", "application/x-lzh-compressed", "pma"),
    (F::PolygonAscii, K::Model, "Polygon ASCII", "PLY", "model/x-ply-ascii", "ply"),
    (F::PolygonBinary, K::Model, "Polygon Binary", "PLY", "model/x-ply-binary", "ply"),
    (F::PortableArbitraryMap, K::Image, "Portable Arbitrary Map", "PAM", "image/x-portable-arbitrarymap", "pam"),
    (F::PortableBitmap, K::Image, "Portable BitMap", "PBM", "image/x-portable-bitmap", "pbm"),
    (F::PortableDocumentFormat, K::Document, "Portable Document Format", "PDF", "application/pdf", "pdf"),
    (F::PortableExecutable, K::Executable, "Portable Executable", "PE", "application/vnd.microsoft.portable-executable", "exe"),
    (F::PortableFloatmap, K::Image, "Portable FloatMap", "PFM", "image/x-pfm", "pfm"),
    (F::PortableGraymap, K::Image, "Portable GrayMap", "PGM", "image/x-portable-graymap", "pgm"),
    (F::PortableNetworkGraphics, K::Image, "Portable Network Graphics", "PNG", "image/png", "png"),
    (F::PortablePixmap, K::Image, "Portable PixMap", "PPM", "image/x-portable-pixmap", "ppm"),
    (F::Postscript, K::Document, "PostScript", "PS", "application/postscript", "ps"),
    (F::PythonScript, K::Other, "Python Script", "", "text/x-script.python", "py"),
    (F::QemuCopyOnWrite, K::Disk, "QEMU Copy On Write", "QCOW", "application/x-qemu-disk", "qcow"),
    (F::QualcommPurevoice, K::Audio, "Qualcomm PureVoice", "QCP", "audio/qcelp", "qcp"),
    (F::QuiteOkAudio, K::Audio, "Quite OK Audio", "QOA", "audio/x-qoa", "qoa"),
    (F::QuiteOkImage, K::Image, "Quite OK Image", "QOI", "image/x-qoi", "qoi"),
    (F::RadianceHdr, K::Image, "Radiance HDR", "HDR", "image/vnd.radiance", "hdr"),
    (F::Realaudio, K::Audio, "RealAudio", "RA", "audio/x-pn-realaudio", "ra"),
    (F::ReallySimpleSyndication, K::Other, "Really Simple Syndication", "RSS", "application/rss+xml", "rss"),
    (F::Realmedia, K::Other, "RealMedia", "RM", "application/vnd.rn-realmedia", "rm"),
    (F::Realvideo, K::Video, "RealVideo", "RV", "video/x-pn-realvideo", "rv"),
    (F::RedHatPackageManager, K::Package, "Red Hat Package Manager", "RPM", "application/x-rpm", "rpm"),
    (F::RichTextFormat, K::Document, "Rich Text Format", "RTF", "application/rtf", "rtf"),
    (F::RoshalArchive, K::Archive, "Roshal Archive", "RAR", "application/vnd.rar", "rar"),
    (F::RubyScript, K::Other, "Ruby Script", "", "text/x-ruby", "rb"),
    (F::Rzip, K::Compressed, "rzip", "RZ", "application/x-rzip", "rz"),
    (F::ScalableVectorGraphics, K::Image, "Scalable Vector Graphics", "SVG", "image/svg+xml", "svg"),
    (F::ScreamTracker3Module, K::Audio, "Scream Tracker 3 Module", "S3M", "audio/x-s3m", "s3m"),
    (F::SegaMasterSystemRom, K::Rom, "Sega Master System ROM", "SMS", "application/x-sms-rom", "sms"),
    (F::Seqbox, K::Archive, "SeqBox", "SBX", "application/x-sbx", "sbx"),
    (F::SevenZip, K::Archive, "7-Zip", "7Z", "application/x-7z-compressed", "7z"),
    (F::Shapefile, K::Geospatial, "Shapefile", "SHP", "application/x-esri-shape", "shp"),
    (F::ShellScript, K::Other, "Shell Script", "", "text/x-shellscript", "sh"),
    (F::ShoutcastPlaylist, K::Playlist, "SHOUTcast Playlist", "PLS", "audio/x-scpls", "pls"),
    (F::SiliconGraphicsImage, K::Image, "Silicon Graphics Image", "SGI", "image/x-sgi", "sgi"),
    (F::SiliconGraphicsMovie, K::Video, "Silicon Graphics Movie", "SGI", "video/x-sgi-movie", "sgi"),
    (F::SimpleObjectAccessProtocol, K::Other, "Simple Object Access Protocol", "SOAP", "application/soap+xml", "soap"),
    (F::Sketch, K::Image, "Sketch", "", "image/x-sketch", "sketch"),
    (F::Sketch43, K::Image, "Sketch 43", "", "image/x-sketch", "sketch"),
    (F::Sketchup, K::Model, "SketchUp", "SKP", "application/vnd.sketchup.skp", "skp"),
    (F::SmallWebFormat, K::Other, "Small Web Format", "SWF", "application/x-shockwave-flash", "swf"),
    (F::Snappy, K::Compressed, "Snappy", "", "application/x-snappy-framed", "sz"),
    (F::SolidworksAssembly, K::Model, "SolidWorks Assembly", "SLDASM", "model/x-sldasm", "sldasm"),
    (F::SolidworksDrawing, K::Model, "SolidWorks Drawing", "SLDDRW", "model/x-slddrw", "slddrw"),
    (F::SolidworksPart, K::Model, "SolidWorks Part", "SLDPRT", "model/x-sldprt", "sldprt"),
    (F::SonyDsdStreamFile, K::Audio, "Sony DSD Stream File", "DSF", "audio/x-dsf", "dsf"),
    (F::SonyMovie, K::Video, "Sony Movie", "MQV", "video/quicktime", "mqv"),
    (F::Soundfont2, K::Audio, "SoundFont 2", "SF2", "audio/x-soundfont", "sf2"),
    (F::SpaceclaimDocument, K::Model, "SpaceClaim Document", "SCDOC", "model/x-scdoc", "scdoc"),
    (F::Sqlite3, K::Database, "SQLite 3", "", "application/vnd.sqlite3", "sqlite"),
    (F::Squashfs, K::Archive, "Squashfs", "", "application/x-squashfs", "sqsh"),
    (F::StandardForTheExchangeOfProductModelData, K::Model, "Standard for the Exchange of Product model data", "STEP", "model/step", "step"),
    (F::Starcalc, K::Spreadsheet, "StarCalc", "SDC", "application/vnd.stardivision.calc", "sdc"),
    (F::Starchart, K::Diagram, "StarChart", "SDS", "application/vnd.stardivision.chart", "sds"),
    (F::Stardraw, K::Image, "StarDraw", "SDA", "application/vnd.stardivision.draw", "sda"),
    (F::Starimpress, K::Presentation, "StarImpress", "SDD", "application/vnd.stardivision.impress", "sdd"),
    (F::Starmath, K::Formula, "StarMath", "SMF", "application/vnd.stardivision.math", "smf"),
    (F::Starwriter, K::Document, "StarWriter", "SDW", "application/vnd.stardivision.writer", "sdw"),
    (F::StereolithographyAscii, K::Model, "Stereolithography ASCII", "STL", "model/x-stl-ascii", "stl"),
    (F::Stuffit, K::Archive, "StuffIt", "SIT", "application/x-stuffit", "sit"),
    (F::StuffitX, K::Archive, "StuffIt X", "SITX", "application/x-stuffitx", "sitx"),
    (F::SubripText, K::Subtitle, "SubRip Text", "SRT", "application/x-subrip", "srt"),
    (F::SunXmlCalc, K::Spreadsheet, "Sun XML Calc", "SXC", "application/vnd.sun.xml.calc", "sxc"),
    (F::SunXmlCalcTemplate, K::Spreadsheet, "Sun XML Calc Template", "STC", "application/vnd.sun.xml.calc.template", "stc"),
    (F::SunXmlDraw, K::Image, "Sun XML Draw", "SXD", "application/vnd.sun.xml.draw", "sxd"),
    (F::SunXmlDrawTemplate, K::Image, "Sun XML Draw Template", "STD", "application/vnd.sun.xml.draw.template", "std"),
    (F::SunXmlImpress, K::Presentation, "Sun XML Impress", "SXI", "application/vnd.sun.xml.impress", "sxi"),
    (F::SunXmlImpressTemplate, K::Presentation, "Sun XML Impress Template", "STI", "application/vnd.sun.xml.impress.template", "sti"),
    (F::SunXmlMath, K::Formula, "Sun XML Math", "SXM", "application/vnd.sun.xml.math", "sxm"),
    (F::SunXmlWriter, K::Document, "Sun XML Writer", "SXW", "application/vnd.sun.xml.writer", "sxw"),
    (F::SunXmlWriterGlobal, K::Document, "Sun XML Writer Global", "SGW", "application/vnd.sun.xml.writer.global", "sgw"),
    (F::SunXmlWriterTemplate, K::Document, "Sun XML Writer Template", "STW", "application/vnd.sun.xml.writer.template", "stw"),
    (F::TagImageFileFormat, K::Image, "Tag Image File Format", "TIFF", "image/tiff", "tiff"),
    (F::TapeArchive, K::Archive, "Tape Archive", "TAR", "application/x-tar", "tar"),
    (F::Tasty, K::Metadata, "TASTy", "", "application/x-tasty", "tasty"),
    (F::ThirdGenerationPartnershipProject, K::Video, "3rd Generation Partnership Project", "3GPP", "video/3gpp", "3gp"),
    (F::ThirdGenerationPartnershipProject2, K::Video, "3rd Generation Partnership Project 2", "3GPP2", "video/3gpp2", "3g2"),
    (F::ThreeDimensionalManufacturingFormat, K::Model, "3D Manufacturing Format", "3MF", "application/vnd.ms-package.3dmanufacturing-3dmodel+xml", "3mf"),
    (F::ThreeDimensionalStudio, K::Model, "3D Studio", "3DS", "application/x-3ds", "3ds"),
    (F::ThreeDimensionalStudioMax, K::Model, "3D Studio Max", "MAX", "application/x-max", "max"),
    (F::TiledMapXml, K::Other, "Tiled Map XML", "TMX", "application/x-tmx+xml", "tmx"),
    (F::TiledTilesetXml, K::Other, "Tiled Tileset XML", "TSX", "application/x-tsx+xml", "tsx"),
    (F::TimedTextMarkupLanguage, K::Subtitle, "Timed Text Markup Language", "TTML", "application/ttml+xml", "ttml"),
    (F::ToolCommandLanguageScript, K::Other, "Tool Command Language Script", "Tcl Script", "text/x-tcl", "tcl"),
    (F::TrainingCenterXml, K::Geospatial, "Training Center XML", "TCX", "application/vnd.garmin.tcx+xml", "tcx"),
    (F::Truetype, K::Font, "TrueType", "TTF", "font/ttf", "ttf"),
    (F::TruetypeCollection, K::Font, "TrueType Collection", "TTC", "font/collection", "ttc"),
    (F::UltimateSoundtrackerModule, K::Audio, "Ultimate Soundtracker Module", "MOD", "audio/x-mod", "mod"),
    (F::UniformOfficeFormatPresentation, K::Presentation, "Uniform Office Format Presentation", "UOP", "application/vnd.uof.presentation", "uop"),
    (F::UniformOfficeFormatSpreadsheet, K::Spreadsheet, "Uniform Office Format Spreadsheet", "UOS", "application/vnd.uof.spreadsheet", "uos"),
    (F::UniformOfficeFormatText, K::Document, "Uniform Office Format Text", "UOT", "application/vnd.uof.text", "uot"),
    (F::Universal3d, K::Model, "Universal 3D", "U3D", "model/u3d", "u3d"),
    (F::UniversalSceneDescriptionAscii, K::Model, "Universal Scene Description ASCII", "USDA", "model/x-usd", "usda"),
    (F::UniversalSceneDescriptionBinary, K::Model, "Universal Scene Description Binary", "USDC", "model/x-usd", "usdc"),
    (F::UniversalSceneDescriptionZip, K::Model, "Universal Scene Description ZIP", "USDZ", "model/vnd.usdz+zip", "usdz"),
    (F::UniversalSubtitleFormat, K::Subtitle, "Universal Subtitle Format", "USF", "application/x-usf", "usf"),
    (F::UnixArchiver, K::Archive, "UNIX archiver", "archiver", "application/x-archive", "a"),
    (F::UnixCompress, K::Compressed, "UNIX compress", "compress", "application/x-compress", "Z"),
    (F::Vcalendar, K::Other, "vCalendar", "VCS", "text/calendar", "vcs"),
    (F::Vcard, K::Other, "vCard", "VCF", "text/vcard", "vcf"),
    (F::VirtualMachineDisk, K::Disk, "Virtual Machine Disk", "VMDK", "application/x-vmdk", "vmdk"),
    (F::VirtualRealityModelingLanguage, K::Model, "Virtual Reality Modeling Language", "VRML", "model/vrml", "wrl"),
    (F::VirtualboxVirtualDiskImage, K::Disk, "VirtualBox Virtual Disk Image", "VDI", "application/x-virtualbox-vdi", "vdi"),
    (F::WaveformAudio, K::Audio, "Waveform Audio", "WAV", "audio/vnd.wave", "wav"),
    (F::Wavpack, K::Audio, "WavPack", "WV", "audio/wavpack", "wv"),
    (F::WebApplicationArchive, K::Package, "Web Application Archive", "WAR", "application/java-archive", "war"),
    (F::WebOpenFontFormat, K::Font, "Web Open Font Format", "WOFF", "font/woff", "woff"),
    (F::WebOpenFontFormat2, K::Font, "Web Open Font Format 2", "WOFF2", "font/woff2", "woff2"),
    (F::WebVideoTextTracks, K::Subtitle, "Web Video Text Tracks", "WebVTT", "text/vtt", "vtt"),
    (F::WebassemblyBinary, K::Executable, "WebAssembly Binary", "Wasm", "application/wasm", "wasm"),
    (F::WebassemblyText, K::Other, "WebAssembly Text", "WAT", "text/wasm", "wat"),
    (F::Webm, K::Video, "WebM", "", "video/webm", "webm"),
    (F::Webp, K::Image, "WebP", "", "image/webp", "webp"),
    (F::WindowsAnimatedCursor, K::Image, "Windows Animated Cursor", "ANI", "application/x-navi-animation", "ani"),
    (F::WindowsAppBundle, K::Package, "Windows App Bundle", "APPXBUNDLE", "application/vnd.ms-appx.bundle", "appxbundle"),
    (F::WindowsAppPackage, K::Package, "Windows App Package", "APPX", "application/vnd.ms-appx", "appx"),
    (F::WindowsBitmap, K::Image, "Windows Bitmap", "BMP", "image/bmp", "bmp"),
    (F::WindowsCursor, K::Image, "Windows Cursor", "CUR", "image/x-icon", "cur"),
    (F::WindowsIcon, K::Image, "Windows Icon", "ICO", "image/x-icon", "ico"),
    (F::WindowsImagingFormat, K::Archive, "Windows Imaging Format", "WIM", "application/x-ms-wim", "wim"),
    (F::WindowsMediaAudio, K::Audio, "Windows Media Audio", "WMA", "audio/x-ms-wma", "wma"),
    (F::WindowsMediaPlaylist, K::Playlist, "Windows Media Playlist", "WPL", "application/vnd.ms-wpl", "wpl"),
    (F::WindowsMediaVideo, K::Video, "Windows Media Video", "WMV", "video/x-ms-wmv", "wmv"),
    (F::WindowsMetafile, K::Image, "Windows Metafile", "WMF", "image/wmf", "wmf"),
    (F::WindowsRecordedTvShow, K::Video, "Windows Recorded TV Show", "WTV", "video/x-wtv", "wtv"),
    (F::WindowsShortcut, K::Metadata, "Windows Shortcut", "LNK", "application/x-ms-shortcut", "lnk"),
    (F::WordperfectDocument, K::Document, "WordPerfect Document", "WPD", "application/vnd.wordperfect", "wpd"),
    (F::WordperfectGraphics, K::Image, "WordPerfect Graphics", "WPG", "application/vnd.wordperfect", "wpg"),
    (F::WordperfectMacro, K::Other, "WordPerfect Macro", "WPM", "application/vnd.wordperfect", "wpm"),
    (F::WordperfectPresentations, K::Presentation, "WordPerfect Presentations", "SHW", "application/vnd.wordperfect", "shw"),
    (F::XPixmap, K::Image, "X PixMap", "XPM", "image/x-xpixmap", "xpm"),
    (F::Xap, K::Package, "XAP", "", "application/x-silverlight-app", "xap"),
    (F::Xbox360Executable, K::Executable, "Xbox 360 Executable", "XEX", "application/x-xbox360-executable", "xex"),
    (F::XboxExecutable, K::Executable, "Xbox Executable", "XBE", "application/x-xbox-executable", "xbe"),
    (F::XmlLocalizationInterchangeFileFormat, K::Other, "XML Localization Interchange File Format", "XLIFF", "application/xliff+xml", "xlf"),
    (F::XmlShareablePlaylistFormat, K::Playlist, "XML Shareable Playlist Format", "XSPF", "application/xspf+xml", "xspf"),
    (F::Xpinstall, K::Package, "XPInstall", "XPI", "application/x-xpinstall", "xpi"),
    (F::Xz, K::Compressed, "XZ", "", "application/x-xz", "xz"),
    (F::Zip, K::Archive, "ZIP", "", "application/zip", "zip"),
    (F::Zoo, K::Archive, "zoo", "", "application/x-zoo", "zoo"),
    (F::Zpaq, K::Archive, "ZPAQ", "", "application/x-zpaq", "zpaq"),
    (F::Zstandard, K::Compressed, "Zstandard", "zstd", "application/zstd", "zst"),
];
