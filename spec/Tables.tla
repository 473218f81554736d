------------------------------- MODULE Tables -------------------------------
(* Registered status codes and file types. Written out here as an           *)
(* independent reference; not read from the code at check time.             *)
EXTENDS Bytes

ReasonStr(n) ==
  CASE n = 100 -> "Continue"
    [] n = 101 -> "Switching Protocol"
    [] n = 102 -> "Processing"
    [] n = 103 -> "Early Hints"
    [] n = 200 -> "OK"
    [] n = 201 -> "Created"
    [] n = 202 -> "Accepted"
    [] n = 203 -> "Non-Authoritative Information"
    [] n = 204 -> "No Content"
    [] n = 205 -> "Reset Content"
    [] n = 206 -> "Partial Content"
    [] n = 207 -> "Multi-Status"
    [] n = 208 -> "Already Reported"
    [] n = 226 -> "IM Used"
    [] n = 300 -> "Multiple Choice"
    [] n = 301 -> "Moved Permanently"
    [] n = 302 -> "Found"
    [] n = 303 -> "See Other"
    [] n = 304 -> "Not Modified"
    [] n = 307 -> "Temporary Redirect"
    [] n = 308 -> "Permanent Redirect"
    [] n = 400 -> "Bad Request"
    [] n = 401 -> "Unauthorized"
    [] n = 402 -> "Payment Required"
    [] n = 403 -> "Forbidden"
    [] n = 404 -> "Not Found"
    [] n = 405 -> "Method Not Allowed"
    [] n = 406 -> "Not Acceptable"
    [] n = 407 -> "Proxy Authentication Required"
    [] n = 408 -> "Request Timeout"
    [] n = 409 -> "Conflict"
    [] n = 410 -> "Gone"
    [] n = 411 -> "Length Required"
    [] n = 412 -> "Precondition Failed"
    [] n = 413 -> "Payload Too Large"
    [] n = 414 -> "URI Too Long"
    [] n = 415 -> "Unsupported Media Type"
    [] n = 416 -> "Range Not Satisfiable"
    [] n = 417 -> "Expectation Failed"
    [] n = 418 -> "I'm a teapot"
    [] n = 421 -> "Misdirected Request"
    [] n = 422 -> "Unprocessable Entity"
    [] n = 423 -> "Locked"
    [] n = 424 -> "Failed Dependency"
    [] n = 425 -> "Too Early"
    [] n = 426 -> "Upgrade Required"
    [] n = 428 -> "Precondition Required"
    [] n = 429 -> "Too Many Requests"
    [] n = 431 -> "Request Header Fields Too Large"
    [] n = 451 -> "Unavailable For Legal Reasons"
    [] n = 500 -> "Internal Server Error"
    [] n = 501 -> "Not Implemented"
    [] n = 502 -> "Bad Gateway"
    [] n = 503 -> "Service Unavailable"
    [] n = 504 -> "Gateway Timeout"
    [] n = 505 -> "HTTP Version Not Supported"
    [] n = 506 -> "Variant Also Negotiates"
    [] n = 507 -> "Insufficient Storage"
    [] n = 508 -> "Loop Detected"
    [] n = 510 -> "Not Extended"
    [] n = 511 -> "Network Authentication Required"
    [] OTHER -> ""
StatusCodes == {100, 101, 102, 103, 200, 201, 202, 203, 204, 205, 206, 207, 208, 226, 300, 301, 302, 303, 304, 307, 308, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 421, 422, 423, 424, 425, 426, 428, 429, 431, 451, 500, 501, 502, 503, 504, 505, 506, 507, 508, 510, 511}
Reason == [n \in StatusCodes |-> Upper(B(ReasonStr(n)))]

MimeList == <<
  <<"css", "text/css">>,
  <<"csv", "text/csv">>,
  <<"html", "text/html">>,
  <<"htm", "text/html">>,
  <<"ics", "text/calendar">>,
  <<"js", "text/javascript">>,
  <<"mjs", "text/javascript">>,
  <<"txt", "text/plain">>,
  <<"abw", "application/x-abiword">>,
  <<"arc", "application/x-freearc">>,
  <<"azw", "application/vnd.amazon.ebook">>,
  <<"bin", "application/octet-stream">>,
  <<"bz", "application/x-bzip">>,
  <<"bz2", "application/x-bzip2">>,
  <<"csh", "application/x-csh">>,
  <<"doc", "application/msword">>,
  <<"docx", "application/vnd.openxmlformats-officedocument.wordprocessingml.document">>,
  <<"eot", "application/vnd.ms-fontobject">>,
  <<"epub", "application/epub+zip">>,
  <<"gz", "application/gzip">>,
  <<"java", "application/java-archive">>,
  <<"json", "application/json">>,
  <<"jsonld", "application/ld+json">>,
  <<"mpkg", "application/vnd.apple.installer+xml">>,
  <<"odp", "application/vnd.oasis.opendocument.presentation">>,
  <<"ods", "application/vnd.oasis.opendocument.spreadsheet">>,
  <<"odt", "application/vnd.oasis.opendocument.text">>,
  <<"ogx", "application/ogg">>,
  <<"pdf", "application/pdf">>,
  <<"php", "application/x-httpd-php">>,
  <<"ppt", "application/vnd.ms-powerpoint">>,
  <<"pptx", "application/vnd.openxmlformats-officedocument.presentationml.presentation">>,
  <<"rar", "application/vnd.rar">>,
  <<"rtf", "application/rtf">>,
  <<"sh", "application/x-sh">>,
  <<"swf", "application/x-shockwave-flash">>,
  <<"tar", "application/x-tar">>,
  <<"vsd", "application/vnd.visio">>,
  <<"xhtml", "application/xhtml+xml">>,
  <<"xls", "application/vnd.ms-excel">>,
  <<"xlsx", "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet">>,
  <<"xml", "application/xml">>,
  <<"xul", "application/vnd.mozilla.xul+xml">>,
  <<"zip", "application/zip">>,
  <<"7z", "application/x-7z-compressed">>,
  <<"bmp", "image/bmp">>,
  <<"gif", "image/gif">>,
  <<"ico", "image/vnd.microsoft.icon">>,
  <<"jpeg", "image/jpeg">>,
  <<"jpg", "image/jpeg">>,
  <<"png", "image/png">>,
  <<"svg", "image/svg+xml">>,
  <<"tif", "image/tiff">>,
  <<"tiff", "image/tiff">>,
  <<"webp", "image/webp">>,
  <<"aac", "audio/aac">>,
  <<"mid", "audio/midi">>,
  <<"midi", "audio/x-midi">>,
  <<"mp3", "audio/mpeg">>,
  <<"oga", "audio/ogg">>,
  <<"opus", "audio/opus">>,
  <<"wav", "audio/wav">>,
  <<"weba", "audio/webm">>,
  <<"avi", "video/x-msvideo">>,
  <<"mpeg", "video/mpeg">>,
  <<"ogv", "video/ogg">>,
  <<"ts", "video/mp2t">>,
  <<"webm", "video/webm">>,
  <<"otf", "font/otf">>,
  <<"ttf", "font/ttf">>,
  <<"woff", "font/woff">>,
  <<"woff2", "font/woff2">> >>
MimeOf == [e \in {B(MimeList[i][1]) : i \in 1..Len(MimeList)} |->
             LET i == CHOOSE j \in 1..Len(MimeList) : B(MimeList[j][1]) = e IN B(MimeList[i][2])]
(* the extension: what follows the last dot of the file name, none if that  *)
(* dot is the name's first character                                        *)
ExtOf(name) ==
  LET dot == FindLastB(name, 46) IN IF dot <= 1 THEN <<>> ELSE Drop(name, dot)
FileName(path) ==
  Drop(path, FindLastB(path, 47))
MimeFor(path) == LET e == Lower(ExtOf(FileName(path)))
                 IN IF e \in DOMAIN MimeOf THEN MimeOf[e] ELSE B("text/plain")
=============================================================================
