pub struct Sha256; pub struct Sha384; pub struct Sha512;
