static const char* goldenPow[4][6] = {
  {"d4220200671703e9df5968bf50d44e56e0350382c83ed50a001bac5469a27a91",
   "737d0ed5321c453f0a7c0e36db8b4d50f3cbf06b9adf982fcce5b64b84f67484",
   "02557de27b689663cea9db7d764bad8422c4eba9b49354c39b21b67513719027",
   "82a1bcb9856c9ae7582ed38a4508f411a3573a72798d430364a4976684df4d16",
   "adcd83c3c98b365567253f231cbb31fe8d0a6b1013fd9e0b9852f6bf15b02b77",
   "49a6eec9aaddcbf4f1b9d0eb6c0c29a04c41f8508538b297c16976be5cd3d331",
   },
  {"629a3950ea9f9b1ae6b033f960806406822534f973c76d4f083e15657d5e911c",
   "f2adf98263632ee132c629db8503fcce3f159d8d3818c6c73d2cedfe4b1a48f6",
   "567b6fba2bf399c9019cfa69e8465583ee6cf65e5ac277f918030ff1afae6c28",
   "8bf8ba3d5bba35cf95ce9e8d20af718dd1ec398f8eea133ec77c0ccafd01cab8",
   "36847df5a4eaaf47546d98a128a42eeeb0902caba8e3bc329d80ebc774857d6d",
   "cb1d9a39b48a9c8481d0a0bb516d5b5c6fc3da8b23f0a29b28d276bacd9255fe",
   },
  {"3da01670845bbfaf07596078dd0e7ae6fe32ff31b8e984d8453b793b3789b6c7",
   "33ecdf28150bc95bf7d1145b7218103ab253cc363582bdcc4e423516a328ab38",
   "929ce7c390f94a899676f26913f32072170b4e5c966091392c1b1b844757ef62",
   "1cde02f9ca9258e84a3017cc9c7100cf3b783c440e83c04c9cc9ebf9b7b5b0d8",
   "8a05de9ea39d4556313481e23a22147e0e9d67e8eb4a413c95d5fd910498525a",
   "29b0adf968d62986b80cc70c6b674406999784c24e691583e297eb7b73c0608a",
   },
  {"834614d37fd0094bd135ac6fbe82f17aff2ea03f805c09bd5eaf3c40ab4ca5f7",
   "c4781fe208f9853908f9bbe1936941b08a263147db70a2b65878d8e661abcbd1",
   "8058591d0211ba237aaed8a7630fae9bd1872a002d27a974a1c9665f570b9635",
   "bbbe92633da718158fac56bc6d44dd5a6cda0fc221d86b4acc5c5c545885253c",
   "7f4817a4933543fa0ae89e507edfc2e7d4699154adbf23c60f4893cfb7040f7a",
   "f565920d6712ae6695fa6f1c7912e5cac8c72087c26c9e48c1bcdc38bd0ab550",
   },
};
