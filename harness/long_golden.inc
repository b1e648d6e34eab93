const char* const kXxh7 = "a38c7223ea6a0d40";
const char* const kSip7 = "dc2d6d0833afa58e";
const char* const kBlake3 = "eb8f38225ed894bd32ad57913cccb078f64abfbb2c84efd6279683737437f687";
const char* const kSha256 = "71f049b9c6f8b3f6960b53da3f569b362bf285c267a7a59b2f68cb35b2aac29d";
const char* const kSha512 = "db16bd2d24eaf75d8c918298b64ac1fd68adc14bf19bbfec595e1c3547b0dbd85698a866764edbe389fcd4779ab30d0d3f80795ee46b030bd2b00d07d2809041";
const char* const kMd5 = "68156734ae5a84ac6313387c1e907f02";
const char* const kSha1 = "248ad025b0552c4d88e1f20a94b641f789635652";
const char* const kBlake2b = "931d99d13d26c8768d469bac9635ceb0ae72b63f98b0661f40b9e4ae3c59cadeb823024fca183b162ded8d40b360ac96ff6190f2d88d2e6d49eff448d970d321";
const char* const kSha224 = "af90186641f4a60557b11b760cb76d8fa264a57d4e599f3970d2a379";
const char* const kSha384 = "27b054fb6594ab27092740ae1315bf33bd6177411f073f51ab985d4095ede4450d7ad372e2cdae910b7d81526b716a87";
