From 96ab9742d8b99c179a0a65b55444ac3dcc9aa3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:09 +0000
Subject: [PATCH 01/41] fix: block recreate with a different round count read
 the descriptor from freed memory

---
 lib/block/anubis.c    | 4 +++-
 lib/block/aria.c      | 4 +++-
 lib/block/blowfish.c  | 4 +++-
 lib/block/gost.c      | 4 +++-
 lib/block/idea.c      | 4 +++-
 lib/block/khazad.c    | 4 +++-
 lib/block/lea.c       | 4 +++-
 lib/block/rc5.c       | 4 +++-
 lib/block/rc6.c       | 4 +++-
 lib/block/rectangle.c | 4 +++-
 lib/block/rijndael.c  | 8 ++++++--
 lib/block/safer.c     | 8 ++++++--
 lib/block/saferpp.c   | 4 +++-
 lib/block/seed.c      | 4 +++-
 lib/block/serpent.c   | 4 +++-
 lib/block/shacal2.c   | 4 +++-
 lib/block/simon128.c  | 4 +++-
 lib/block/simon32.c   | 4 +++-
 lib/block/simon64.c   | 4 +++-
 lib/block/sm4.c       | 4 +++-
 lib/block/speck128.c  | 4 +++-
 lib/block/speck32.c   | 4 +++-
 lib/block/speck64.c   | 4 +++-
 lib/block/trax_l.c    | 4 +++-
 lib/block/trax_m.c    | 4 +++-
 lib/block/twofish.c   | 4 +++-
 lib/block/xtea.c      | 4 +++-
 27 files changed, 87 insertions(+), 29 deletions(-)

diff --git a/lib/block/anubis.c b/lib/block/anubis.c
index 78dd58b..79a37a9 100644
--- a/lib/block/anubis.c
+++ b/lib/block/anubis.c
@@ -770,8 +770,10 @@ static kripto_block *anubis_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		anubis_destroy(s);
-		s = anubis_create(s->desc, r, key, key_len);
+		s = anubis_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/aria.c b/lib/block/aria.c
index fd6c724..b735d98 100644
--- a/lib/block/aria.c
+++ b/lib/block/aria.c
@@ -705,8 +705,10 @@ static kripto_block *aria_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		aria_destroy(s);
-		s = aria_create(s->desc, r, key, key_len);
+		s = aria_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/blowfish.c b/lib/block/blowfish.c
index 3a8f000..9c280ee 100644
--- a/lib/block/blowfish.c
+++ b/lib/block/blowfish.c
@@ -519,8 +519,10 @@ static kripto_block *blowfish_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		blowfish_destroy(s);
-		s = blowfish_create(s->desc, r, key, key_len);
+		s = blowfish_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/gost.c b/lib/block/gost.c
index 6e172dc..00c1be2 100644
--- a/lib/block/gost.c
+++ b/lib/block/gost.c
@@ -190,8 +190,10 @@ static kripto_block *gost_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		gost_destroy(s);
-		s = gost_create(s->desc, r, key, key_len);
+		s = gost_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/idea.c b/lib/block/idea.c
index bea4387..e33ea90 100644
--- a/lib/block/idea.c
+++ b/lib/block/idea.c
@@ -212,8 +212,10 @@ static kripto_block *idea_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		idea_destroy(s);
-		s = idea_create(s->desc, r, key, key_len);
+		s = idea_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/khazad.c b/lib/block/khazad.c
index 52cc321..5189f88 100644
--- a/lib/block/khazad.c
+++ b/lib/block/khazad.c
@@ -747,8 +747,10 @@ static kripto_block *khazad_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		khazad_destroy(s);
-		s = khazad_create(s->desc, r, key, key_len);
+		s = khazad_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/lea.c b/lib/block/lea.c
index 7c5ce68..ebb0ef3 100644
--- a/lib/block/lea.c
+++ b/lib/block/lea.c
@@ -249,8 +249,10 @@ static kripto_block *lea_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		lea_destroy(s);
-		s = lea_create(s->desc, r, key, key_len);
+		s = lea_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rc5.c b/lib/block/rc5.c
index 650ab37..cd1d4ca 100644
--- a/lib/block/rc5.c
+++ b/lib/block/rc5.c
@@ -156,8 +156,10 @@ static kripto_block *rc5_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rc5_destroy(s);
-		s = rc5_create(s->desc, r, key, key_len);
+		s = rc5_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rc6.c b/lib/block/rc6.c
index dccc223..8920a8e 100644
--- a/lib/block/rc6.c
+++ b/lib/block/rc6.c
@@ -197,8 +197,10 @@ static kripto_block *rc6_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rc6_destroy(s);
-		s = rc6_create(s->desc, r, key, key_len);
+		s = rc6_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rectangle.c b/lib/block/rectangle.c
index 03eb04f..821d437 100644
--- a/lib/block/rectangle.c
+++ b/lib/block/rectangle.c
@@ -286,8 +286,10 @@ static kripto_block *rectangle_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rectangle_destroy(s);
-		s = rectangle_create(s->desc, r, key, key_len);
+		s = rectangle_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/rijndael.c b/lib/block/rijndael.c
index 4e0e8e6..70aea61 100644
--- a/lib/block/rijndael.c
+++ b/lib/block/rijndael.c
@@ -934,8 +934,10 @@ static kripto_block *rijndael128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rijndael128_destroy(s);
-		s = rijndael128_create(s->desc, r, key, key_len);
+		s = rijndael128_create(desc, r, key, key_len);
 	}
 	else
 	{
@@ -1167,8 +1169,10 @@ static kripto_block *rijndael256_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		rijndael256_destroy(s);
-		s = rijndael256_create(s->desc, r, key, key_len);
+		s = rijndael256_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/safer.c b/lib/block/safer.c
index 9ab2013..f47ba54 100644
--- a/lib/block/safer.c
+++ b/lib/block/safer.c
@@ -348,8 +348,10 @@ static kripto_block *safer_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		safer_destroy(s);
-		s = safer_create(s->desc, r, key, key_len);
+		s = safer_create(desc, r, key, key_len);
 	}
 	else
 	{
@@ -401,8 +403,10 @@ static kripto_block *safer_sk_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		safer_destroy(s);
-		s = safer_sk_create(s->desc, r, key, key_len);
+		s = safer_sk_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/saferpp.c b/lib/block/saferpp.c
index 86d6978..a8825a0 100644
--- a/lib/block/saferpp.c
+++ b/lib/block/saferpp.c
@@ -410,8 +410,10 @@ static kripto_block *saferpp_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		saferpp_destroy(s);
-		s = saferpp_create(s->desc, r, key, key_len);
+		s = saferpp_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/seed.c b/lib/block/seed.c
index 91f0c23..0bc3e20 100644
--- a/lib/block/seed.c
+++ b/lib/block/seed.c
@@ -457,8 +457,10 @@ static kripto_block *seed_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		seed_destroy(s);
-		s = seed_create(s->desc, r, key, key_len);
+		s = seed_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/serpent.c b/lib/block/serpent.c
index 9e1396d..63ec683 100644
--- a/lib/block/serpent.c
+++ b/lib/block/serpent.c
@@ -707,8 +707,10 @@ static kripto_block *serpent_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		serpent_destroy(s);
-		s = serpent_create(s->desc, r, key, key_len);
+		s = serpent_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/shacal2.c b/lib/block/shacal2.c
index 9d436de..6bd6b51 100644
--- a/lib/block/shacal2.c
+++ b/lib/block/shacal2.c
@@ -234,8 +234,10 @@ static kripto_block *shacal2_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		shacal2_destroy(s);
-		s = shacal2_create(s->desc, r, key, key_len);
+		s = shacal2_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon128.c b/lib/block/simon128.c
index 8259e95..87d3460 100644
--- a/lib/block/simon128.c
+++ b/lib/block/simon128.c
@@ -182,8 +182,10 @@ static kripto_block *simon128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		simon128_destroy(s);
-		s = simon128_create(s->desc, r, key, key_len);
+		s = simon128_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon32.c b/lib/block/simon32.c
index 94d071f..45d955d 100644
--- a/lib/block/simon32.c
+++ b/lib/block/simon32.c
@@ -154,8 +154,10 @@ static kripto_block *simon32_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		simon32_destroy(s);
-		s = simon32_create(s->desc, r, key, key_len);
+		s = simon32_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/simon64.c b/lib/block/simon64.c
index 0caf667..4797fac 100644
--- a/lib/block/simon64.c
+++ b/lib/block/simon64.c
@@ -165,8 +165,10 @@ static kripto_block *simon64_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		simon64_destroy(s);
-		s = simon64_create(s->desc, r, key, key_len);
+		s = simon64_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/sm4.c b/lib/block/sm4.c
index 142173a..079b9db 100644
--- a/lib/block/sm4.c
+++ b/lib/block/sm4.c
@@ -222,8 +222,10 @@ static kripto_block *sm4_recreate
 
 	if(r != s->r)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		sm4_destroy(s);
-		s = sm4_create(s->desc, r, key, key_len);
+		s = sm4_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck128.c b/lib/block/speck128.c
index 1dfaf86..70cd0de 100644
--- a/lib/block/speck128.c
+++ b/lib/block/speck128.c
@@ -144,8 +144,10 @@ static kripto_block *speck128_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		speck128_destroy(s);
-		s = speck128_create(s->desc, r, key, key_len);
+		s = speck128_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck32.c b/lib/block/speck32.c
index e85af4d..bbf563f 100644
--- a/lib/block/speck32.c
+++ b/lib/block/speck32.c
@@ -144,8 +144,10 @@ static kripto_block *speck32_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		speck32_destroy(s);
-		s = speck32_create(s->desc, r, key, key_len);
+		s = speck32_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/speck64.c b/lib/block/speck64.c
index f495424..a20ecce 100644
--- a/lib/block/speck64.c
+++ b/lib/block/speck64.c
@@ -144,8 +144,10 @@ static kripto_block *speck64_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		speck64_destroy(s);
-		s = speck64_create(s->desc, r, key, key_len);
+		s = speck64_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/trax_l.c b/lib/block/trax_l.c
index d447c42..d7b118d 100644
--- a/lib/block/trax_l.c
+++ b/lib/block/trax_l.c
@@ -287,8 +287,10 @@ static kripto_block *trax_l_recreate
 
 	if(r != s->steps)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		trax_l_destroy(s);
-		s = trax_l_create(s->desc, r, key, key_len);
+		s = trax_l_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/trax_m.c b/lib/block/trax_m.c
index 1611466..f324407 100644
--- a/lib/block/trax_m.c
+++ b/lib/block/trax_m.c
@@ -219,8 +219,10 @@ static kripto_block *trax_m_recreate
 
 	if(r != s->steps)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		trax_m_destroy(s);
-		s = trax_m_create(s->desc, r, key, key_len);
+		s = trax_m_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/twofish.c b/lib/block/twofish.c
index 676aa5f..c128761 100644
--- a/lib/block/twofish.c
+++ b/lib/block/twofish.c
@@ -1224,8 +1224,10 @@ static kripto_block *twofish_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		twofish_destroy(s);
-		s = twofish_create(s->desc, r, key, key_len);
+		s = twofish_create(desc, r, key, key_len);
 	}
 	else
 	{
diff --git a/lib/block/xtea.c b/lib/block/xtea.c
index b050337..713c9cf 100644
--- a/lib/block/xtea.c
+++ b/lib/block/xtea.c
@@ -142,8 +142,10 @@ static kripto_block *xtea_recreate
 
 	if(r != s->rounds)
 	{
+		const kripto_desc_block *desc = s->desc;
+
 		xtea_destroy(s);
-		s = xtea_create(s->desc, r, key, key_len);
+		s = xtea_create(desc, r, key, key_len);
 	}
 	else
 	{
-- 
2.43.0


From 8a5e733b14c13537e6efaa765b7c0880d8e30024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:33 +0000
Subject: [PATCH 02/41] fix: BLAKE must use a zero counter for a final block
 without message bits

---
 lib/hash/blake256.c | 6 +++++-
 lib/hash/blake512.c | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/hash/blake256.c b/lib/hash/blake256.c
index ded9fe2..9ffce79 100644
--- a/lib/hash/blake256.c
+++ b/lib/hash/blake256.c
@@ -219,6 +219,9 @@ static void blake256_finish(kripto_hash *s)
 		assert(s->len[1]);
 	}
 
+	/* message bytes in the last block */
+	unsigned int n = s->i;
+
 	/* pad */
 	s->buf[s->i++] = 0x80;
 
@@ -227,6 +230,7 @@ static void blake256_finish(kripto_hash *s)
 		while(s->i < 64) s->buf[s->i++] = 0;
 		blake256_process(s, s->buf);
 		s->i = 0;
+		n = 0;
 	}
 
 	while(s->i < 56) s->buf[s->i++] = 0;
@@ -237,7 +241,7 @@ static void blake256_finish(kripto_hash *s)
 	STORE32B(s->len[1], s->buf + 56);
 	STORE32B(s->len[0], s->buf + 60);
 
-	if(!s->i) s->len[0] = s->len[1] = 0;
+	if(!n) s->len[0] = s->len[1] = 0;
 
 	blake256_process(s, s->buf);
 
diff --git a/lib/hash/blake512.c b/lib/hash/blake512.c
index 0c64c32..fd659eb 100644
--- a/lib/hash/blake512.c
+++ b/lib/hash/blake512.c
@@ -224,6 +224,9 @@ static void blake512_finish(kripto_hash *s)
 		assert(s->len[1]);
 	}
 
+	/* message bytes in the last block */
+	unsigned int n = s->i;
+
 	/* pad */
 	s->buf[s->i++] = 0x80;
 
@@ -232,6 +235,7 @@ static void blake512_finish(kripto_hash *s)
 		while(s->i < 128) s->buf[s->i++] = 0;
 		blake512_process(s, s->buf);
 		s->i = 0;
+		n = 0;
 	}
 
 	while(s->i < 112) s->buf[s->i++] = 0;
@@ -242,7 +246,7 @@ static void blake512_finish(kripto_hash *s)
 	STORE64B(s->len[1], s->buf + 112);
 	STORE64B(s->len[0], s->buf + 120);
 
-	if(!s->i) s->len[0] = s->len[1] = 0;
+	if(!n) s->len[0] = s->len[1] = 0;
 
 	blake512_process(s, s->buf);
 
-- 
2.43.0


From 07575b88616841f6cd3e0c5a0b44cecb276ec811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:59 +0000
Subject: [PATCH 03/41] fix: BLAKE2 must hold back a full last block until the
 end of the message

---
 lib/hash/blake2b.c | 4 ++--
 lib/hash/blake2s.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/hash/blake2b.c b/lib/hash/blake2b.c
index 8451628..6a4ab46 100644
--- a/lib/hash/blake2b.c
+++ b/lib/hash/blake2b.c
@@ -177,8 +177,6 @@ static void blake2b_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 128)
 		{
 			s->len[0] += 128;
@@ -191,6 +189,8 @@ static void blake2b_input
 			blake2b_process(s, s->buf);
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/hash/blake2s.c b/lib/hash/blake2s.c
index 881bac0..7988125 100644
--- a/lib/hash/blake2s.c
+++ b/lib/hash/blake2s.c
@@ -175,8 +175,6 @@ static void blake2s_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 64)
 		{
 			s->len[0] += 64;
@@ -189,6 +187,8 @@ static void blake2s_input
 			blake2s_process(s, s->buf);
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
-- 
2.43.0


From cf4f0c7983d12ef88b0c2374866a79f78395f8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:24 +0000
Subject: [PATCH 04/41] fix: Skein hash did not compute Skein (ignored input,
 skipped bytes, wrong chaining)

---
 lib/hash/skein1024.c | 25 +++++++++++++++----------
 lib/hash/skein256.c  | 25 +++++++++++++++----------
 lib/hash/skein512.c  | 25 +++++++++++++++----------
 3 files changed, 45 insertions(+), 30 deletions(-)

diff --git a/lib/hash/skein1024.c b/lib/hash/skein1024.c
index 25708cd..64037d3 100644
--- a/lib/hash/skein1024.c
+++ b/lib/hash/skein1024.c
@@ -91,7 +91,7 @@ static kripto_hash *skein1024_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
@@ -117,9 +117,10 @@ static kripto_hash *skein1024_recreate
 		unsigned int len = salt_len > 128 ? 128 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 128 - len);
+		memset(s->buf + len, 0, 128 - len);
 
 		POS_ADD(s->tweak, len);
+		salt = CU8(salt) + len;
 		salt_len -= len;
 
 		if(!salt_len) s->tweak[15] |= 0x80; /* add final */
@@ -145,8 +146,6 @@ static void skein1024_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 128)
 		{
 			POS_ADD(s->tweak, 128);
@@ -154,6 +153,8 @@ static void skein1024_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
@@ -170,20 +171,24 @@ static void skein1024_output(kripto_hash *s, void *out, size_t len)
 		memset(s->buf, 0, 128);
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
+		(void)kripto_block_recreate(s->block, s->r, s->h, 128);
+		kripto_block_tweak(s->block, s->tweak, 16);
 	}
 
 	assert(s->out_len >= len);
+	s->out_len -= len;
 
 	for(size_t i = 0; i < len; i++)
 	{
 		if(s->i == 128)
 		{
-			s->out_len -= 128;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
-			skein1024_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 128);
+			kripto_block_encrypt(s->block, s->buf, s->h);
+			for(s->i = 0; s->i < 8; s->i++) s->h[s->i] ^= s->buf[s->i];
+
+			/* increment counter */
+			for(s->i = 0; s->i < 8 && !++s->buf[s->i]; s->i++);
+
 			s->i = 0;
 		}
 		
diff --git a/lib/hash/skein256.c b/lib/hash/skein256.c
index de6f2dd..8f179b3 100644
--- a/lib/hash/skein256.c
+++ b/lib/hash/skein256.c
@@ -91,7 +91,7 @@ static kripto_hash *skein256_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
@@ -117,9 +117,10 @@ static kripto_hash *skein256_recreate
 		unsigned int len = salt_len > 32 ? 32 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 32 - len);
+		memset(s->buf + len, 0, 32 - len);
 
 		POS_ADD(s->tweak, len);
+		salt = CU8(salt) + len;
 		salt_len -= len;
 
 		if(!salt_len) s->tweak[15] |= 0x80; /* add final */
@@ -145,8 +146,6 @@ static void skein256_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 32)
 		{
 			POS_ADD(s->tweak, 32);
@@ -154,6 +153,8 @@ static void skein256_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
@@ -170,20 +171,24 @@ static void skein256_output(kripto_hash *s, void *out, size_t len)
 		memset(s->buf, 0, 32);
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
+		(void)kripto_block_recreate(s->block, s->r, s->h, 32);
+		kripto_block_tweak(s->block, s->tweak, 16);
 	}
 
 	assert(s->out_len >= len);
+	s->out_len -= len;
 
 	for(size_t i = 0; i < len; i++)
 	{
 		if(s->i == 32)
 		{
-			s->out_len -= 32;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
-			skein256_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 32);
+			kripto_block_encrypt(s->block, s->buf, s->h);
+			for(s->i = 0; s->i < 8; s->i++) s->h[s->i] ^= s->buf[s->i];
+
+			/* increment counter */
+			for(s->i = 0; s->i < 8 && !++s->buf[s->i]; s->i++);
+
 			s->i = 0;
 		}
 		
diff --git a/lib/hash/skein512.c b/lib/hash/skein512.c
index e0fbeaa..5eb0bfa 100644
--- a/lib/hash/skein512.c
+++ b/lib/hash/skein512.c
@@ -91,7 +91,7 @@ static kripto_hash *skein512_recreate
 	memset(s->tweak, 0, 16);
 
 	s->out_len = out_len;
-	t = out_len << 3;
+	t = (uint64_t)out_len << 3;
 
 	/* CFG */
 	s->buf[0] = 'S';
@@ -117,9 +117,10 @@ static kripto_hash *skein512_recreate
 		unsigned int len = salt_len > 64 ? 64 : salt_len;
 
 		memcpy(s->buf, salt, len);
-		memset(s->buf, 0, 64 - len);
+		memset(s->buf + len, 0, 64 - len);
 
 		POS_ADD(s->tweak, len);
+		salt = CU8(salt) + len;
 		salt_len -= len;
 
 		if(!salt_len) s->tweak[15] |= 0x80; /* add final */
@@ -145,8 +146,6 @@ static void skein512_input
 {
 	for(size_t i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 64)
 		{
 			POS_ADD(s->tweak, 64);
@@ -154,6 +153,8 @@ static void skein512_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
@@ -170,20 +171,24 @@ static void skein512_output(kripto_hash *s, void *out, size_t len)
 		memset(s->buf, 0, 64);
 		memset(s->tweak, 0, 12);
 		s->tweak[0] = 8; /* 8 byte counter */
-		s->tweak[15] = 0x7F; /* type OUT, first */
+		s->tweak[15] = 0xFF; /* type OUT, first, final */
+		(void)kripto_block_recreate(s->block, s->r, s->h, 64);
+		kripto_block_tweak(s->block, s->tweak, 16);
 	}
 
 	assert(s->out_len >= len);
+	s->out_len -= len;
 
 	for(size_t i = 0; i < len; i++)
 	{
 		if(s->i == 64)
 		{
-			s->out_len -= 64;
-			if(!s->out_len) s->tweak[15] |= 0x80; /* add final */
-			skein512_process(s);
-			s->tweak[15] &= 0xBF; /* remove first */
-			POS_ADD(s->tweak, 64);
+			kripto_block_encrypt(s->block, s->buf, s->h);
+			for(s->i = 0; s->i < 8; s->i++) s->h[s->i] ^= s->buf[s->i];
+
+			/* increment counter */
+			for(s->i = 0; s->i < 8 && !++s->buf[s->i]; s->i++);
+
 			s->i = 0;
 		}
 		
-- 
2.43.0


From fa16a9b663cec584a7cdbb3ee8b561d4f3c7bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:24 +0000
Subject: [PATCH 05/41] fix: Skein mac did not compute Skein (ignored input,
 skipped bytes, wrong chaining)

---
 lib/mac/skein1024.c | 10 ++++++----
 lib/mac/skein256.c  | 10 ++++++----
 lib/mac/skein512.c  | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/lib/mac/skein1024.c b/lib/mac/skein1024.c
index 405ae55..198dc1d 100644
--- a/lib/mac/skein1024.c
+++ b/lib/mac/skein1024.c
@@ -90,7 +90,7 @@ static kripto_mac *skein1024_recreate
 	memset(s->h, 0, 128);
 	memset(s->tweak, 0, 16);
 
-	t = tag_len << 3;
+	t = (uint64_t)tag_len << 3;
 
 	/* KEY */
 	s->tweak[15] = 0x40; /* type KEY, first */
@@ -101,10 +101,11 @@ static kripto_mac *skein1024_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
 
 		POS_ADD(s->tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) s->tweak[15] |= 0x80; /* add final */
@@ -125,6 +126,7 @@ static kripto_mac *skein1024_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 112);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein1024_process(s);
@@ -147,8 +149,6 @@ static void skein1024_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 128)
 		{
 			POS_ADD(s->tweak, 128);
@@ -156,6 +156,8 @@ static void skein1024_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/mac/skein256.c b/lib/mac/skein256.c
index ea4b813..9b2b951 100644
--- a/lib/mac/skein256.c
+++ b/lib/mac/skein256.c
@@ -90,7 +90,7 @@ static kripto_mac *skein256_recreate
 	memset(s->h, 0, 32);
 	memset(s->tweak, 0, 16);
 
-	t = tag_len << 3;
+	t = (uint64_t)tag_len << 3;
 
 	/* KEY */
 	s->tweak[15] = 0x40; /* type KEY, first */
@@ -101,10 +101,11 @@ static kripto_mac *skein256_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
 
 		POS_ADD(s->tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) s->tweak[15] |= 0x80; /* add final */
@@ -125,6 +126,7 @@ static kripto_mac *skein256_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 16);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein256_process(s);
@@ -147,8 +149,6 @@ static void skein256_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 32)
 		{
 			POS_ADD(s->tweak, 32);
@@ -156,6 +156,8 @@ static void skein256_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
diff --git a/lib/mac/skein512.c b/lib/mac/skein512.c
index ae114ac..f370038 100644
--- a/lib/mac/skein512.c
+++ b/lib/mac/skein512.c
@@ -90,7 +90,7 @@ static kripto_mac *skein512_recreate
 	memset(s->h, 0, 64);
 	memset(s->tweak, 0, 16);
 
-	t = tag_len << 3;
+	t = (uint64_t)tag_len << 3;
 
 	/* KEY */
 	s->tweak[15] = 0x40; /* type KEY, first */
@@ -101,10 +101,11 @@ static kripto_mac *skein512_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
 
 		POS_ADD(s->tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) s->tweak[15] |= 0x80; /* add final */
@@ -125,6 +126,7 @@ static kripto_mac *skein512_recreate
 	s->buf[7] = 0;
 	STORE64L(t, s->buf + 8);
 	memset(s->buf + 16, 0, 48);
+	memset(s->tweak, 0, 12);
 	s->tweak[0] = 32;
 	s->tweak[15] = 0xC4; /* type CFG, first, final */
 	skein512_process(s);
@@ -147,8 +149,6 @@ static void skein512_input
 
 	for(i = 0; i < len; i++)
 	{
-		s->buf[s->i++] = CU8(in)[i];
-
 		if(s->i == 64)
 		{
 			POS_ADD(s->tweak, 64);
@@ -156,6 +156,8 @@ static void skein512_input
 			s->tweak[15] = 0x30; /* type MSG */
 			s->i = 0;
 		}
+
+		s->buf[s->i++] = CU8(in)[i];
 	}
 }
 
-- 
2.43.0


From ed25307355dfb77aadc148c62a13ec7143a5ffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:24 +0000
Subject: [PATCH 06/41] fix: Skein stream did not compute Skein (ignored input,
 skipped bytes, wrong chaining)

---
 lib/stream/skein1024.c | 8 +++++---
 lib/stream/skein256.c  | 8 +++++---
 lib/stream/skein512.c  | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/lib/stream/skein1024.c b/lib/stream/skein1024.c
index f722ae9..59adfa6 100644
--- a/lib/stream/skein1024.c
+++ b/lib/stream/skein1024.c
@@ -76,7 +76,7 @@ static kripto_stream *skein1024_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 128;
 	memset(k, 0, 128);
 	memset(s->ctr, 0, 128);
 
@@ -90,10 +90,11 @@ static kripto_stream *skein1024_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
 
 		POS_ADD(tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) tweak[15] |= 0x80; /* add final */
@@ -138,10 +139,11 @@ static kripto_stream *skein1024_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 128 - block);
+		memset(s->buf + block, 0, 128 - block);
 
 		POS_ADD(tweak, block);
 
+		iv = CU8(iv) + block;
 		iv_len -= block;
 
 		if(!iv_len) tweak[15] |= 0x80; /* add final */
diff --git a/lib/stream/skein256.c b/lib/stream/skein256.c
index 847ec10..790b40d 100644
--- a/lib/stream/skein256.c
+++ b/lib/stream/skein256.c
@@ -76,7 +76,7 @@ static kripto_stream *skein256_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 32;
 	memset(k, 0, 32);
 	memset(s->ctr, 0, 32);
 
@@ -90,10 +90,11 @@ static kripto_stream *skein256_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
 
 		POS_ADD(tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) tweak[15] |= 0x80; /* add final */
@@ -138,10 +139,11 @@ static kripto_stream *skein256_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 32 - block);
+		memset(s->buf + block, 0, 32 - block);
 
 		POS_ADD(tweak, block);
 
+		iv = CU8(iv) + block;
 		iv_len -= block;
 
 		if(!iv_len) tweak[15] |= 0x80; /* add final */
diff --git a/lib/stream/skein512.c b/lib/stream/skein512.c
index 231a56d..ea40049 100644
--- a/lib/stream/skein512.c
+++ b/lib/stream/skein512.c
@@ -76,7 +76,7 @@ static kripto_stream *skein512_recreate
 	unsigned int i;
 
 	s->r = r;
-	s->i = 0;
+	s->i = 64;
 	memset(k, 0, 64);
 	memset(s->ctr, 0, 64);
 
@@ -90,10 +90,11 @@ static kripto_stream *skein512_recreate
 		else block = key_len;
 
 		memcpy(s->buf, key, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
 
 		POS_ADD(tweak, block);
 
+		key = CU8(key) + block;
 		key_len -= block;
 
 		if(!key_len) tweak[15] |= 0x80; /* add final */
@@ -138,10 +139,11 @@ static kripto_stream *skein512_recreate
 		else block = iv_len;
 
 		memcpy(s->buf, iv, block);
-		memset(s->buf, 0, 64 - block);
+		memset(s->buf + block, 0, 64 - block);
 
 		POS_ADD(tweak, block);
 
+		iv = CU8(iv) + block;
 		iv_len -= block;
 
 		if(!iv_len) tweak[15] |= 0x80; /* add final */
-- 
2.43.0


From e3f78be65bc9f2aff66dea19446e1b5daebc76dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:54 +0000
Subject: [PATCH 07/41] fix: HMAC truncated the inner hash to the requested tag
 and overflowed its key buffer for tags longer than a block

---
 lib/mac/hmac.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/mac/hmac.c b/lib/mac/hmac.c
index 5bd432e..5c51c50 100644
--- a/lib/mac/hmac.c
+++ b/lib/mac/hmac.c
@@ -32,6 +32,7 @@ struct kripto_mac
 	size_t size;
 	unsigned int r;
 	unsigned int blocksize;
+	unsigned int tag_len;
 	uint8_t *key;
 };
 
@@ -47,9 +48,12 @@ static int hmac_init
 	unsigned int i;
 
 	s->blocksize = kripto_hash_blocksize(hash);
+	s->tag_len = tag_len;
 
 	if(key_len > s->blocksize)
 	{
+		i = tag_len < s->blocksize ? tag_len : s->blocksize;
+
 		if(kripto_hash_all(
 			hash,
 			s->r,
@@ -58,10 +62,8 @@ static int hmac_init
 			key,
 			key_len,
 			s->key,
-			tag_len)
+			i)
 		) return -1;
-
-		i = tag_len;
 	}
 	else
 	{
@@ -86,16 +88,20 @@ static void hmac_input(kripto_mac *s, const void *in, size_t len)
 static void hmac_tag(kripto_mac *s, void *tag, unsigned int len)
 {
 	unsigned int i;
+	uint8_t t[s->tag_len + 1];
 
 	for(i = 0; i < s->blocksize; i++)
 		s->key[i] ^= 0x6A; /* 0x5C ^ 0x36 */
 
-	kripto_hash_output(s->hash, tag, len);
+	/* only the result is truncated, not the inner hash */
+	kripto_hash_output(s->hash, t, s->tag_len);
 
-	kripto_hash_recreate(s->hash, s->r, 0, 0, len);
+	kripto_hash_recreate(s->hash, s->r, 0, 0, s->tag_len);
 	kripto_hash_input(s->hash, s->key, i);
-	kripto_hash_input(s->hash, tag, len);
+	kripto_hash_input(s->hash, t, s->tag_len);
 	kripto_hash_output(s->hash, tag, len);
+
+	kripto_memory_wipe(t, s->tag_len);
 }
 
 static void hmac_destroy(kripto_mac *s)
-- 
2.43.0


From 9260733bfab916bf9b093286cdb618ae14dadd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:56 +0000
Subject: [PATCH 08/41] fix: CFB decryption was wrong after the first block and
 for partial or in-place calls

---
 lib/stream/cfb.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/stream/cfb.c b/lib/stream/cfb.c
index 373ec5e..e4310b9 100644
--- a/lib/stream/cfb.c
+++ b/lib/stream/cfb.c
@@ -71,12 +71,14 @@ static void cfb_decrypt
 	{
 		if(s->used == s->blocksize)
 		{
-			kripto_block_encrypt(s->block, s->prev, pt);
+			kripto_block_encrypt(s->block, s->prev, s->prev);
 			s->used = 0;
 		}
 
-		U8(pt)[i] ^= CU8(ct)[i];
-		s->prev[s->used++] = CU8(ct)[i];
+		uint8_t c = CU8(ct)[i];
+
+		U8(pt)[i] = s->prev[s->used] ^ c;
+		s->prev[s->used++] = c;
 	}
 }
 
-- 
2.43.0


From 8a87d33afc50a265350ce381b1ab01b7212933c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:56 +0000
Subject: [PATCH 09/41] fix: CTR counter did not carry into its first byte

---
 lib/stream/ctr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/stream/ctr.c b/lib/stream/ctr.c
index d3a833c..f4ff81c 100644
--- a/lib/stream/ctr.c
+++ b/lib/stream/ctr.c
@@ -54,7 +54,7 @@ static void ctr_crypt
 			kripto_block_encrypt(s->block, s->x, s->buf);
 			s->used = 0;
 
-			for(n = s->blocksize - 1; n; n--)
+			for(n = s->blocksize; n--;)
 				if(++s->x[n]) break;
 		}
 
@@ -79,7 +79,7 @@ static void ctr_prng
 			kripto_block_encrypt(s->block, s->x, s->buf);
 			s->used = 0;
 
-			for(n = s->blocksize - 1; n; n--)
+			for(n = s->blocksize; n--;)
 				if(++s->x[n]) break;
 		}
 
-- 
2.43.0


From 006c83568206b79b61cfe15a9cb807ff84701a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:56 +0000
Subject: [PATCH 10/41] fix: PKCS#7 padding to sizes that are not powers of
 two, removal of a full-length pad and of invalid padding

---
 lib/pkcs7.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/pkcs7.c b/lib/pkcs7.c
index f615557..b230174 100644
--- a/lib/pkcs7.c
+++ b/lib/pkcs7.c
@@ -30,7 +30,7 @@ size_t kripto_pkcs7_add
 {
 	unsigned int i;
 
-	pad = pad - (len & (pad - 1));
+	pad = pad - (len % pad);
 
 	if(pad + len > maxlen) return 0;
 
@@ -42,8 +42,16 @@ size_t kripto_pkcs7_add
 
 size_t kripto_pkcs7_rem(void *buf, size_t len)
 {
-	if(U8(buf)[len - 1] < len)
-		return (len - U8(buf)[len - 1]);
-	else
-		return len;
+	size_t i;
+	size_t pad;
+
+	if(!len) return len;
+
+	pad = U8(buf)[len - 1];
+	if(pad > len) return len;
+
+	for(i = len - pad; i < len; i++)
+		if(U8(buf)[i] != pad) return len;
+
+	return len - pad;
 }
-- 
2.43.0


From b51cb878661173af2e6928c691cbdc1256cf02da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:56 +0000
Subject: [PATCH 11/41] fix: PBKDF2 truncated the PRF itself for short outputs,
 looped without end when it has no fixed length, and missed re-keying errors

---
 lib/pbkdf2.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/pbkdf2.c b/lib/pbkdf2.c
index c456fb0..f75914f 100644
--- a/lib/pbkdf2.c
+++ b/lib/pbkdf2.c
@@ -49,7 +49,7 @@ int kripto_pbkdf2
 	assert(iter);
 
 	x = kripto_mac_maxtag(mac);
-	if(out_len < x) x = out_len;
+	if(!x) return -1;
 
 	buf0 = (uint8_t *)malloc(x << 1);
 	if(!buf0) return -1;
@@ -75,7 +75,7 @@ int kripto_pbkdf2
 		for(i = 1; i < iter; i++)
 		{
 			m = kripto_mac_recreate(m, mac_rounds, pass, pass_len, x);
-			if(!mac) goto err;
+			if(!m) goto err;
 
 			kripto_mac_input(m, buf0, x);
 			kripto_mac_tag(m, buf0, x);
-- 
2.43.0


From 0ee72585f6f72fa989afefde14b835802fca95d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:40 +0000
Subject: [PATCH 12/41] fix: scrypt buffers overlapped and their size was
 computed in 32 bits

---
 lib/scrypt.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/scrypt.c b/lib/scrypt.c
index 71541c8..cbf069f 100644
--- a/lib/scrypt.c
+++ b/lib/scrypt.c
@@ -17,6 +17,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
+#include <limits.h>
 
 #include <kripto/memory.h>
 #include <kripto/cast.h>
@@ -217,12 +218,20 @@ int kripto_scrypt
 	uint32_t *t1;
 	uint32_t *t2;
 	uint32_t i;
+	size_t len;
 
-	b = (uint8_t *)malloc((r << 7) * p + (r << 7) * n + (r << 8));
+	/* p blocks must be usable as salt, all sizes must be representable */
+	if(!r || (uint64_t)r * p > UINT_MAX >> 7) return -1;
+
+	len = (size_t)r << 7;
+	if(n > SIZE_MAX / len - p - 2) return -1;
+	len *= p + n + 2;
+
+	b = (uint8_t *)malloc(len);
 	if(!b) return -1;
 
 	t0 = (uint32_t *)(void *)(b + (r << 7) * p);
-	t1 = t0 + (r << 5);
+	t1 = t0 + ((size_t)r << 5) * n;
 	t2 = t1 + (r << 5);
 
 	if(kripto_pbkdf2
@@ -254,13 +263,13 @@ int kripto_scrypt
 		out_len
 	)) goto err;
 
-	kripto_memory_wipe(b, (r << 7) * p + (r << 7) * n + (r << 8));
+	kripto_memory_wipe(b, len);
 	free(b);
 
 	return 0;
 
 err:
-	kripto_memory_wipe(b, (r << 7) * p + (r << 7) * n + (r << 8));
+	kripto_memory_wipe(b, len);
 	free(b);
 
 	return -1;
-- 
2.43.0


From 0d0a1add9eaffa64ade23e7c9b509b30eb421a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:40 +0000
Subject: [PATCH 13/41] fix: EAX with a nonce shorter than a block used
 uninitialised memory and only part of the nonce MAC

---
 lib/ae/eax.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/ae/eax.c b/lib/ae/eax.c
index a03af41..6d3a870 100644
--- a/lib/ae/eax.c
+++ b/lib/ae/eax.c
@@ -159,7 +159,7 @@ static kripto_ae *eax_create
 	memset(buf, 0, len);
 	kripto_mac_input(s->omac, buf, len);
 	kripto_mac_input(s->omac, iv, iv_len);
-	kripto_mac_tag(s->omac, s->iv, iv_len);
+	kripto_mac_tag(s->omac, s->iv, len);
 
 	/* recreate OMAC for encryption/decryption */
 	s->omac = kripto_mac_recreate(s->omac, rounds, key, key_len, len);
@@ -168,7 +168,7 @@ static kripto_ae *eax_create
 	kripto_mac_input(s->omac, buf, len);
 
 	/* create CTR */
-	s->ctr = kripto_stream_create(s->ctr_desc, rounds, key, key_len, s->iv, iv_len);
+	s->ctr = kripto_stream_create(s->ctr_desc, rounds, key, key_len, s->iv, len);
 	if(!s->ctr) goto err6;
 
 	/* create OMAC for header */
@@ -215,7 +215,7 @@ static kripto_ae *eax_recreate
 	memset(buf, 0, s->len);
 	kripto_mac_input(s->omac, buf, s->len);
 	kripto_mac_input(s->omac, iv, iv_len);
-	kripto_mac_tag(s->omac, s->iv, iv_len);
+	kripto_mac_tag(s->omac, s->iv, s->len);
 
 	/* recreate OMAC for encryption/decryption */
 	s->omac = kripto_mac_recreate(s->omac, rounds, key, key_len, s->len);
@@ -224,7 +224,7 @@ static kripto_ae *eax_recreate
 	kripto_mac_input(s->omac, buf, s->len);
 
 	/* recreate CTR */
-	s->ctr = kripto_stream_recreate(s->ctr, rounds, key, key_len, s->iv, iv_len);
+	s->ctr = kripto_stream_recreate(s->ctr, rounds, key, key_len, s->iv, s->len);
 	if(!s->ctr) goto err2;
 
 	/* recreate OMAC for header */
-- 
2.43.0


From bfc96b325ff044f7b7c228dc112a27ea51ed02fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:40 +0000
Subject: [PATCH 14/41] fix: EAX and EAX2 leaked their remaining parts when
 re-keying failed

---
 lib/ae/eax.c  | 16 ++++++++++++++--
 lib/ae/eax2.c | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/lib/ae/eax.c b/lib/ae/eax.c
index 6d3a870..fdd5d39 100644
--- a/lib/ae/eax.c
+++ b/lib/ae/eax.c
@@ -238,9 +238,21 @@ static kripto_ae *eax_recreate
 	return s;
 
 err3: kripto_stream_destroy(s->ctr);
+	kripto_mac_destroy(s->omac);
+	free(buf);
+	goto err;
 err2: kripto_mac_destroy(s->omac);
-err1: free(buf);
-err0:
+	kripto_mac_destroy(s->header);
+	free(buf);
+	goto err;
+err1: kripto_stream_destroy(s->ctr);
+	kripto_mac_destroy(s->header);
+	free(buf);
+	goto err;
+err0: kripto_stream_destroy(s->ctr);
+	kripto_mac_destroy(s->omac);
+	kripto_mac_destroy(s->header);
+err:
 	free(s->ctr_desc);
 	free(s->omac_desc);
 	kripto_memory_wipe(s->iv, s->len);
diff --git a/lib/ae/eax2.c b/lib/ae/eax2.c
index 16ddbe0..a799ffb 100644
--- a/lib/ae/eax2.c
+++ b/lib/ae/eax2.c
@@ -257,9 +257,21 @@ static kripto_ae *eax2_recreate
 	return s;
 
 err3: kripto_stream_destroy(s->stream);
+	kripto_mac_destroy(s->mac);
+	free(buf);
+	goto err;
 err2: kripto_mac_destroy(s->mac);
-err1: free(buf);
-err0:
+	kripto_mac_destroy(s->header);
+	free(buf);
+	goto err;
+err1: kripto_stream_destroy(s->stream);
+	kripto_mac_destroy(s->header);
+	free(buf);
+	goto err;
+err0: kripto_stream_destroy(s->stream);
+	kripto_mac_destroy(s->mac);
+	kripto_mac_destroy(s->header);
+err:
 	kripto_memory_wipe(s->iv, tag_len);
 	free(s);
 	return 0;
-- 
2.43.0


From 518b9c506d2cc87322465800034c4dfca21910f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:12 +0000
Subject: [PATCH 15/41] fix: EAX2 overflowed or left uninitialised the nonce
 MAC when nonce and tag lengths differ

---
 lib/ae/eax2.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/ae/eax2.c b/lib/ae/eax2.c
index a799ffb..4897f5b 100644
--- a/lib/ae/eax2.c
+++ b/lib/ae/eax2.c
@@ -124,6 +124,7 @@ static kripto_ae *eax2_create
 	uint8_t *buf;
 	unsigned int mac_key; /* K1 */
 	unsigned int stream_key; /* K2 */
+	unsigned int stream_iv;
 
 	buf = (uint8_t *)malloc(tag_len);
 	if(!buf) goto err0;
@@ -141,13 +142,17 @@ static kripto_ae *eax2_create
 		stream_key = kripto_stream_maxkey(EXT(desc)->stream);
 	mac_key = key_len - stream_key;
 
+	/* stream IV is MAC of the nonce */
+	stream_iv = kripto_stream_maxiv(EXT(desc)->stream);
+	if(stream_iv > tag_len) stream_iv = tag_len;
+
 	/* MAC IV */
 	s->mac = kripto_mac_create(EXT(desc)->mac, rounds, key, mac_key, tag_len);
 	if(!s->mac) goto err2;
 	memset(buf, 0, tag_len);
 	kripto_mac_input(s->mac, buf, tag_len);
 	kripto_mac_input(s->mac, iv, iv_len);
-	kripto_mac_tag(s->mac, s->iv, iv_len);
+	kripto_mac_tag(s->mac, s->iv, tag_len);
 
 	/* recreate MAC for encryption/decryption */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
@@ -160,7 +165,7 @@ static kripto_ae *eax2_create
 	(
 		EXT(desc)->stream, rounds,
 		(const uint8_t *)key + mac_key, stream_key,
-		s->iv, iv_len
+		s->iv, stream_iv
 	);
 	if(!s->stream) goto err4;
 
@@ -198,6 +203,7 @@ static kripto_ae *eax2_recreate
 	uint8_t *buf;
 	unsigned int mac_key; /* K1 */
 	unsigned int stream_key; /* K2 */
+	unsigned int stream_iv;
 	const kripto_desc_ae *desc;
 
 	if(tag_len > s->len)
@@ -221,13 +227,17 @@ static kripto_ae *eax2_recreate
 		stream_key = kripto_stream_maxkey(EXT(s->desc)->stream);
 	mac_key = key_len - stream_key;
 
+	/* stream IV is MAC of the nonce */
+	stream_iv = kripto_stream_maxiv(EXT(s->desc)->stream);
+	if(stream_iv > tag_len) stream_iv = tag_len;
+
 	/* MAC IV */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
 	if(!s->mac) goto err1;
 	memset(buf, 0, tag_len);
 	kripto_mac_input(s->mac, buf, tag_len);
 	kripto_mac_input(s->mac, iv, iv_len);
-	kripto_mac_tag(s->mac, s->iv, iv_len);
+	kripto_mac_tag(s->mac, s->iv, tag_len);
 
 	/* recreate MAC for encryption/decryption */
 	s->mac = kripto_mac_recreate(s->mac, rounds, key, mac_key, tag_len);
@@ -240,7 +250,7 @@ static kripto_ae *eax2_recreate
 	(
 		s->stream, rounds,
 		(const uint8_t *)key + mac_key, stream_key,
-		s->iv, iv_len
+		s->iv, stream_iv
 	);
 	if(!s->stream) goto err2;
 
-- 
2.43.0


From 0fc2578cba4793d4a645973c0bb3e21b21143709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:12 +0000
Subject: [PATCH 16/41] fix: EAX2 key limit overflowed and the MAC part of the
 key could exceed its limit

---
 lib/ae/eax2.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/ae/eax2.c b/lib/ae/eax2.c
index 4897f5b..804b1ef 100644
--- a/lib/ae/eax2.c
+++ b/lib/ae/eax2.c
@@ -13,6 +13,7 @@
  * OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <limits.h>
 #include <stdint.h>
 #include <string.h>
 #include <stdlib.h>
@@ -141,6 +142,11 @@ static kripto_ae *eax2_create
 	if(stream_key > kripto_stream_maxkey(EXT(desc)->stream))
 		stream_key = kripto_stream_maxkey(EXT(desc)->stream);
 	mac_key = key_len - stream_key;
+	if(mac_key > kripto_mac_maxkey(EXT(desc)->mac))
+	{
+		mac_key = kripto_mac_maxkey(EXT(desc)->mac);
+		stream_key = key_len - mac_key;
+	}
 
 	/* stream IV is MAC of the nonce */
 	stream_iv = kripto_stream_maxiv(EXT(desc)->stream);
@@ -226,6 +232,11 @@ static kripto_ae *eax2_recreate
 	if(stream_key > kripto_stream_maxkey(EXT(s->desc)->stream))
 		stream_key = kripto_stream_maxkey(EXT(s->desc)->stream);
 	mac_key = key_len - stream_key;
+	if(mac_key > kripto_mac_maxkey(EXT(s->desc)->mac))
+	{
+		mac_key = kripto_mac_maxkey(EXT(s->desc)->mac);
+		stream_key = key_len - mac_key;
+	}
 
 	/* stream IV is MAC of the nonce */
 	stream_iv = kripto_stream_maxiv(EXT(s->desc)->stream);
@@ -307,6 +318,7 @@ kripto_desc_ae *kripto_ae_eax2
 	s->desc.tag = &eax2_tag;
 	s->desc.destroy = &eax2_destroy;
 	s->desc.maxkey = kripto_stream_maxkey(stream) + kripto_mac_maxkey(mac);
+	if(s->desc.maxkey < kripto_mac_maxkey(mac)) s->desc.maxkey = UINT_MAX;
 	s->desc.maxiv = kripto_stream_maxiv(stream);
 	s->desc.maxtag = kripto_mac_maxtag(mac);
 
-- 
2.43.0


From 54a6175a28d50ca3410f1fc161d40dcccd6fc56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:44 +0000
Subject: [PATCH 17/41] fix: Keccak read and wrote out of bounds for output
 lengths of half the state or more

---
 lib/hash/keccak1600.c | 1 +
 lib/hash/keccak800.c  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/hash/keccak1600.c b/lib/hash/keccak1600.c
index 0a95af7..e03c2c2 100644
--- a/lib/hash/keccak1600.c
+++ b/lib/hash/keccak1600.c
@@ -304,6 +304,7 @@ static kripto_hash *keccak1600_recreate
 	s->r = r;
 	if(!s->r) s->r = 24;
 
+	if(out_len > 99) out_len = 99; /* rate must not vanish */
 	s->rate = 200 - (out_len << 1);
 
 	memset(s->s, 0, 200);
diff --git a/lib/hash/keccak800.c b/lib/hash/keccak800.c
index 8b9ce0d..144b89a 100644
--- a/lib/hash/keccak800.c
+++ b/lib/hash/keccak800.c
@@ -289,6 +289,7 @@ static kripto_hash *keccak800_recreate
 	s->r = r;
 	if(!s->r) s->r = 20;
 
+	if(out_len > 49) out_len = 49; /* rate must not vanish */
 	s->rate = 100 - (out_len << 1);
 
 	memset(s->s, 0, 100);
-- 
2.43.0


From 6c5e623fe57fdd1f08e13bfc97205459a97fb51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:44 +0000
Subject: [PATCH 18/41] fix: Whirlpool rejected its own number of rounds

---
 lib/hash/whirlpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hash/whirlpool.c b/lib/hash/whirlpool.c
index 59a412e..162852e 100644
--- a/lib/hash/whirlpool.c
+++ b/lib/hash/whirlpool.c
@@ -897,7 +897,7 @@ static kripto_hash *whirlpool_recreate
 	unsigned int out_len
 )
 {
-	assert(r < 10);
+	assert(r <= 10);
 	(void)salt;
 	(void)salt_len;
 	(void)out_len;
-- 
2.43.0


From 126e07a0c7af82578c8c9af6d277c36e6cb7c96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:44 +0000
Subject: [PATCH 19/41] fix: XCBC released its subkeys unwiped when creation
 failed

---
 lib/mac/xcbc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mac/xcbc.c b/lib/mac/xcbc.c
index f421b13..aec7a58 100644
--- a/lib/mac/xcbc.c
+++ b/lib/mac/xcbc.c
@@ -160,6 +160,7 @@ static kripto_mac *xcbc_create
 
 	if(xcbc_init(s, r))
 	{
+		kripto_memory_wipe(s, sizeof(kripto_mac) + s->len * 3);
 		free(s);
 		return 0;
 	}
-- 
2.43.0


From 5e654325ca173d44390441a90f43307dab668b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:44 +0000
Subject: [PATCH 20/41] fix: OMAC applied the upper polynomial bytes at the
 wrong offset

---
 lib/mac/omac.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/mac/omac.c b/lib/mac/omac.c
index 5ed42fd..6bbc77f 100644
--- a/lib/mac/omac.c
+++ b/lib/mac/omac.c
@@ -323,9 +323,9 @@ static void omac_init(kripto_mac *s)
 	{
 		if(s->len >= 8)
 		{
-			s->lu[s->len - 4] ^= poly[s->len][0];
-			s->lu[s->len - 3] ^= poly[s->len][1];
-			s->lu[s->len - 2] ^= poly[s->len][2];
+			s->lu[s->len - 6] ^= poly[s->len][0];
+			s->lu[s->len - 5] ^= poly[s->len][1];
+			s->lu[s->len - 4] ^= poly[s->len][2];
 			s->lu[s->len - 3] ^= poly[s->len][3];
 			s->lu[s->len - 2] ^= poly[s->len][4];
 		}
@@ -346,9 +346,9 @@ static void omac_init(kripto_mac *s)
 	{
 		if(s->len >= 8)
 		{
-			s->lu2[s->len - 4] ^= poly[s->len][0];
-			s->lu2[s->len - 3] ^= poly[s->len][1];
-			s->lu2[s->len - 2] ^= poly[s->len][2];
+			s->lu2[s->len - 6] ^= poly[s->len][0];
+			s->lu2[s->len - 5] ^= poly[s->len][1];
+			s->lu2[s->len - 4] ^= poly[s->len][2];
 			s->lu2[s->len - 3] ^= poly[s->len][3];
 			s->lu2[s->len - 2] ^= poly[s->len][4];
 		}
-- 
2.43.0


From 25ee12d5b35b1aedff8e5677b68357a891fde072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:44 +0000
Subject: [PATCH 21/41] fix: Speck divided by zero for keys of a single word or
 less

---
 lib/block/speck128.c | 2 ++
 lib/block/speck32.c  | 2 ++
 lib/block/speck64.c  | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/lib/block/speck128.c b/lib/block/speck128.c
index 70cd0de..581bc53 100644
--- a/lib/block/speck128.c
+++ b/lib/block/speck128.c
@@ -88,6 +88,8 @@ static void speck128_setup
 	uint64_t k[4] = {0, 0, 0, 0};
 	unsigned int m = ((len + 7) >> 3) - 1;
 
+	if(!m) m = 1; /* at least two words */
+
 	LOAD64L_ARRAY(key, k, len);
 
 	s->k[0] = k[0];
diff --git a/lib/block/speck32.c b/lib/block/speck32.c
index bbf563f..87a1d18 100644
--- a/lib/block/speck32.c
+++ b/lib/block/speck32.c
@@ -88,6 +88,8 @@ static void speck32_setup
 	uint16_t k[4] = {0, 0, 0, 0};
 	unsigned int m = ((len + 1) >> 1) - 1;
 
+	if(!m) m = 1; /* at least two words */
+
 	LOAD16L_ARRAY(key, k, len);
 
 	s->k[0] = k[0];
diff --git a/lib/block/speck64.c b/lib/block/speck64.c
index a20ecce..80a31bf 100644
--- a/lib/block/speck64.c
+++ b/lib/block/speck64.c
@@ -88,6 +88,8 @@ static void speck64_setup
 	uint32_t k[4] = {0, 0, 0, 0};
 	unsigned int m = ((len + 3) >> 2) - 1;
 
+	if(!m) m = 1; /* at least two words */
+
 	LOAD32L_ARRAY(key, k, len);
 
 	s->k[0] = k[0];
-- 
2.43.0


From f313054ed1dceb237dfc5bb5a58a1890331fc20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:44 +0000
Subject: [PATCH 22/41] fix: XTEA decryption with an odd number of rounds was
 wrong and read out of bounds

---
 lib/block/xtea.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/block/xtea.c b/lib/block/xtea.c
index 713c9cf..3dc0299 100644
--- a/lib/block/xtea.c
+++ b/lib/block/xtea.c
@@ -87,12 +87,11 @@ static void xtea_decrypt(const kripto_block *s, const void *ct, void *pt)
 	uint32_t x1 = LOAD32B(CU8(ct) + 4);
 	unsigned int i = s->rounds;
 
+	if(i & 1) x0 -= F(x1) ^ s->k[--i];
+
 	while(i)
 	{
 		x1 -= F(x0) ^ s->k[--i];
-
-		if(i == UINT_MAX) break;
-
 		x0 -= F(x1) ^ s->k[--i];
 	}
 
-- 
2.43.0


From c1455a477cf87db48d7b9414c04b167dc3e362e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 23/41] fix: SAFER and SAFER++ read past keys shorter than
 their nominal size

---
 lib/block/safer.c   | 6 ++++++
 lib/block/saferpp.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/lib/block/safer.c b/lib/block/safer.c
index f47ba54..36a8dee 100644
--- a/lib/block/safer.c
+++ b/lib/block/safer.c
@@ -258,6 +258,7 @@ static void safer_setup
 	int sk
 )
 {
+	uint8_t kp[16] = {0};
 	const uint8_t *key2;
 	uint8_t *k = s->k;
 	uint8_t ka[9];
@@ -265,6 +266,10 @@ static void safer_setup
 
 	kb[8] = ka[8] = 0;
 
+	/* short keys are padded with zeros */
+	memcpy(kp, key, len);
+	key = kp;
+
 	if(len > 8) key2 = key + 8; /* 128-bit */
 	else key2 = key; /* 64-bit */
 
@@ -297,6 +302,7 @@ static void safer_setup
 
 	kripto_memory_wipe(ka, 9);
 	kripto_memory_wipe(kb, 9);
+	kripto_memory_wipe(kp, 16);
 }
 
 static void safer_destroy(kripto_block *s)
diff --git a/lib/block/saferpp.c b/lib/block/saferpp.c
index a8825a0..76b8630 100644
--- a/lib/block/saferpp.c
+++ b/lib/block/saferpp.c
@@ -307,6 +307,7 @@ static void saferpp_setup
 	unsigned int len
 )
 {
+	uint8_t kp[32] = {0};
 	const uint8_t *key2;
 	uint8_t *k = s->k;
 	uint8_t ka[17];
@@ -314,6 +315,10 @@ static void saferpp_setup
 
 	kb[16] = ka[16] = 0;
 
+	/* short keys are padded with zeros */
+	memcpy(kp, key, len);
+	key = kp;
+
 	if(len > 16) key2 = key + 16; /* 256-bit */
 	else key2 = key; /* 128-bit */
 
@@ -358,6 +363,7 @@ static void saferpp_setup
 
 	kripto_memory_wipe(ka, 17);
 	kripto_memory_wipe(kb, 17);
+	kripto_memory_wipe(kp, 32);
 }
 
 static void saferpp_destroy(kripto_block *s)
-- 
2.43.0


From b9dafe9aa27906c69616094ea33632d66013a3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 24/41] fix: Rijndael read past its round constants for short
 keys or many rounds

---
 lib/block/rijndael.c | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/lib/block/rijndael.c b/lib/block/rijndael.c
index 70aea61..d5c22f3 100644
--- a/lib/block/rijndael.c
+++ b/lib/block/rijndael.c
@@ -662,23 +662,6 @@ static const uint8_t td4[256] =
 	0xE1, 0x69, 0x14, 0x63, 0x55, 0x21, 0x0C, 0x7D
 };
 
-static const uint32_t rcon[52] =
-{
-	0x01000000, 0x02000000, 0x04000000, 0x08000000,
-	0x10000000, 0x20000000, 0x40000000, 0x80000000,
-	0x1B000000, 0x36000000, 0x6C000000, 0xD8000000,
-	0xAB000000, 0x4D000000, 0x9A000000, 0x2F000000,
-	0x5E000000, 0xBC000000, 0x63000000, 0xC6000000,
-	0x97000000, 0x35000000, 0x6A000000, 0xD4000000,
-	0xB3000000, 0x7D000000, 0xFA000000, 0xEF000000,
-	0xC5000000, 0x91000000, 0x39000000, 0x72000000,
-	0xE4000000, 0xD3000000, 0xBD000000, 0x61000000,
-	0xC2000000, 0x9F000000, 0x25000000, 0x4A000000,
-	0x94000000, 0x33000000, 0x66000000, 0xCC000000,
-	0x83000000, 0x1D000000, 0x3A000000, 0x74000000,
-	0xE8000000, 0xCB000000, 0x8D000000
-};
-
 #define E(X0, X1, X2, X3)		\
 (					\
 	te0[(X0) >> 24] ^		\
@@ -724,6 +707,7 @@ static void rijndael_setup
 	unsigned int x;
 	unsigned int len;
 	uint32_t t;
+	uint32_t rcon = 0x01000000;
 	const unsigned int n = ((key_len + 3) >> 2);
 
 	bs >>= 2;
@@ -732,14 +716,16 @@ static void rijndael_setup
 	for(i = 0; i < n; i++) s->k[i] = 0;
 	LOAD32B_ARRAY(key, s->k, key_len);
 
-	for(j = n, x = 0; j < len; j += n)
+	for(j = n; j < len; j += n)
 	{
 		t = s->k[j - 1];
 		s->k[j] = s->k[j - n] ^
 			((te4[(t >> 16) & 0xFF] << 24) |
 			(te4[(t >> 8) & 0xFF] << 16) |
 			(te4[t & 0xFF] << 8) |
-			te4[t >> 24]) ^ rcon[x++];
+			te4[t >> 24]) ^ rcon;
+
+		rcon = (rcon << 1) ^ (rcon & 0x80000000 ? 0x1B000000 : 0);
 
 		if(n <= 6)
 		{
-- 
2.43.0


From 7058c31cbeacb9f3540a4a1e03ec25d65ee44bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 25/41] fix: IDEA multiplication overflowed int

---
 lib/block/idea.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/block/idea.c b/lib/block/idea.c
index e33ea90..0248fd1 100644
--- a/lib/block/idea.c
+++ b/lib/block/idea.c
@@ -39,7 +39,7 @@ struct kripto_block
 
 static inline uint16_t MUL(uint16_t a, uint16_t b)
 {
-	uint32_t p = a * b;
+	uint32_t p = (uint32_t)a * b;
 
 	if(p)
 	{
-- 
2.43.0


From a2d6b262b2a52e9f181e0d532e4951ce843d3b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 26/41] fix: GOST descriptor constructor used a failed
 allocation

---
 lib/block/gost.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/block/gost.c b/lib/block/gost.c
index 00c1be2..ca45e2f 100644
--- a/lib/block/gost.c
+++ b/lib/block/gost.c
@@ -206,6 +206,7 @@ static kripto_block *gost_recreate
 kripto_desc_block *kripto_block_gost(const unsigned char (*sboxes)[16])
 {
 	kripto_desc_block *desc = (kripto_desc_block *)malloc(sizeof(kripto_desc_block) + sizeof(struct gost));
+	if(!desc) return 0;
 
 	desc->create = &gost_create;
 	desc->recreate = &gost_recreate;
-- 
2.43.0


From 52cfb771cc5a2ad2379f4316d4c3264acce4fb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:24 +0000
Subject: [PATCH 27/41] fix: random self-test rejected every source (unsigned
 wrap, wrong distances)

---
 lib/random.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/random.c b/lib/random.c
index 49f750b..92c3d19 100644
--- a/lib/random.c
+++ b/lib/random.c
@@ -416,8 +416,8 @@ int kripto_random_test(kripto_random *s)
 
 		/* distances */
 		if(prev == sample[i]) dist_zero++;
-		dist[sample[i]] += 4096 - dist_prev[sample[i]];
-		dist_prev[sample[i]] = 4096;
+		dist[sample[i]] += i - dist_prev[sample[i]];
+		dist_prev[sample[i]] = i;
 
 		/* serial correlation */
 		corr1 += prev * sample[i];
@@ -430,7 +430,7 @@ int kripto_random_test(kripto_random *s)
 	for(i = 0; i < 256; i++)
 	{
 		/* chi square */
-		t = count[i] - 16;
+		t = count[i] - 16.0;
 		chi += t * t;
 
 		/* entropy */
@@ -445,6 +445,7 @@ int kripto_random_test(kripto_random *s)
 	}
 	chi /= 16;
 	avg /= 4096;
+	avg_null /= 256;
 
 	/* serial correlation */
 	corr2 = corr2 * corr2;
-- 
2.43.0


From af7aba8b02556fe55446632cac3b5602d7aca7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:25 +0000
Subject: [PATCH 28/41] fix: CAST5 must use 12 rounds for keys of up to 80 bits

---
 lib/block/cast5.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/block/cast5.c b/lib/block/cast5.c
index 3d79bb2..8355349 100644
--- a/lib/block/cast5.c
+++ b/lib/block/cast5.c
@@ -703,7 +703,7 @@ static kripto_block *cast5_recreate
 
 	if(!r)
 	{
-		if(key_len <= 5) s->r = 12;
+		if(key_len <= 10) s->r = 12;
 		else s->r = 16;
 	}
 	else s->r = r;
-- 
2.43.0


From 6202400b2d5019a701831673d42e8c2c14609dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:36 +0000
Subject: [PATCH 29/41] fix: Camellia keys of 9 to 15 bytes leaked complement
 bytes into the right half of the key

---
 lib/block/camellia.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/block/camellia.c b/lib/block/camellia.c
index c9020e8..e175cef 100644
--- a/lib/block/camellia.c
+++ b/lib/block/camellia.c
@@ -388,7 +388,7 @@ static void camellia_setup
 
 	while(i < 8) t[i++] = 0;
 
-	if(i < 16) for(j = i + 8; i < j; i++) t[i] = ~t[i - 8];
+	if(i == 8) for(j = i + 8; i < j; i++) t[i] = ~t[i - 8];
 
 	if(key_len <= 16) while(i < 32) t[i++] = 0;
 	else
-- 
2.43.0


From 2fee465b56c254e1487e12dd26e4bb51f4892bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:35 +0000
Subject: [PATCH 30/41] fix: OMAC used reducible polynomials for blocks of 33
 and 207 bytes

---
 lib/mac/omac.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mac/omac.c b/lib/mac/omac.c
index 6bbc77f..1a5532f 100644
--- a/lib/mac/omac.c
+++ b/lib/mac/omac.c
@@ -78,7 +78,7 @@ static const uint8_t poly[256][6] =
 	{0x00, 0x00, 0x00, 0x00, 0x01, 0x29}, /*  30 */
 	{0x00, 0x00, 0x00, 0x00, 0xC4, 0x01}, /*  31 */
 	{0x00, 0x00, 0x00, 0x00, 0x04, 0x25}, /*  32 */
-	{0x00, 0x00, 0x00, 0x00, 0x09, 0x45}, /*  33 */
+	{0x00, 0x00, 0x00, 0x00, 0x02, 0x45}, /*  33 */
 	{0x00, 0x00, 0x00, 0x00, 0x02, 0x0D}, /*  34 */
 	{0x00, 0x00, 0x00, 0x00, 0x02, 0x25}, /*  35 */
 	{0x00, 0x00, 0x00, 0x00, 0x0C, 0x03}, /*  36 */
@@ -252,7 +252,7 @@ static const uint8_t poly[256][6] =
 	{0x00, 0x00, 0x00, 0x02, 0x80, 0x09}, /* 204 */
 	{0x00, 0x00, 0x00, 0x00, 0x00, 0xA3}, /* 205 */
 	{0x00, 0x00, 0x00, 0x04, 0x20, 0x03}, /* 206 */
-	{0x00, 0x00, 0x00, 0x08, 0x81, 0x01}, /* 207 */
+	{0x00, 0x00, 0x00, 0x08, 0x84, 0x01}, /* 207 */
 	{0x00, 0x00, 0x00, 0x02, 0x02, 0x41}, /* 208 */
 	{0x00, 0x00, 0x00, 0x00, 0x00, 0x39}, /* 209 */
 	{0x00, 0x00, 0x00, 0x00, 0x08, 0x45}, /* 210 */
-- 
2.43.0


From be8e18c1c197abcc66cf391a5099fc9f691cb624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:24 +0000
Subject: [PATCH 31/41] fix: 3-Way decryption used the wrong round constants
 below 11 rounds

---
 lib/block/3way.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/block/3way.c b/lib/block/3way.c
index ce3159d..854939d 100644
--- a/lib/block/3way.c
+++ b/lib/block/3way.c
@@ -153,7 +153,7 @@ static void threeway_decrypt
 	x[2] = LOAD32L(CU8(ct) + 8);
 
 	MU(x);
-	for(i = 0; i < s->r; i++)
+	for(i = 11 - s->r; i < 11; i++)
 	{
 		x[0] ^= s->dk[0] ^ (rc_d[i] << 16);
 		x[1] ^= s->dk[1];
-- 
2.43.0


From 334b326087ee2e8341b7b97496c1d41430301e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:24 +0000
Subject: [PATCH 32/41] fix: RC5 and RC6 key schedules stopped early for keys
 longer than the expanded key table

---
 lib/block/rc5.c | 2 +-
 lib/block/rc6.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/block/rc5.c b/lib/block/rc5.c
index cd1d4ca..2e7d3a8 100644
--- a/lib/block/rc5.c
+++ b/lib/block/rc5.c
@@ -56,7 +56,7 @@ static void rc5_setup
 		s->k[i] = s->k[i - 1] + 0x9E3779B9;
 
 	a = b = i = j = k = 0;
-	while(k < (s->r + 1) * 6)
+	while(k < (s->r + 1) * 6 || k < ls * 3)
 	{
 		a = s->k[i] = ROL32_03(s->k[i] + a + b);
 		b = x[j] = ROL32(x[j] + a + b, a + b);
diff --git a/lib/block/rc6.c b/lib/block/rc6.c
index 8920a8e..a2e65cd 100644
--- a/lib/block/rc6.c
+++ b/lib/block/rc6.c
@@ -58,7 +58,7 @@ static void rc6_setup
 		s->k[i] = s->k[i-1] + 0x9E3779B9;
 
 	a = b = i = j = k = 0;
-	while(k < RC6_K_LEN(s->rounds) * 3)
+	while(k < RC6_K_LEN(s->rounds) * 3 || k < ls * 3)
 	{
 		a = s->k[i] = ROL32_03(s->k[i] + a + b);
 		b = x[j] = ROL32(x[j] + a + b, a + b);
-- 
2.43.0


From 3f5e7cfd84c1a163fbd4f41029d1b573a8fb17ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:27 +0000
Subject: [PATCH 33/41] fix: Keccak-800 round constants were folded instead of
 truncated

---
 lib/hash/keccak800.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/hash/keccak800.c b/lib/hash/keccak800.c
index 144b89a..66361a1 100644
--- a/lib/hash/keccak800.c
+++ b/lib/hash/keccak800.c
@@ -39,16 +39,16 @@ struct kripto_hash
 
 static const uint32_t rc[40] = 
 {
-	0x00000001, 0x00008082, 0x8000808A, 0x00008000,
-	0x0000808B, 0x80000001, 0x00008081, 0x80008009,
+	0x00000001, 0x00008082, 0x0000808A, 0x80008000,
+	0x0000808B, 0x80000001, 0x80008081, 0x00008009,
 	0x0000008A, 0x00000088, 0x80008009, 0x8000000A,
-	0x8000808B, 0x8000008B, 0x80008089, 0x80008003,
-	0x80008002, 0x80000080, 0x0000800A, 0x0000000A,
-	0x00008081, 0x80008080, 0x80000001, 0x00008008,
-	0x00008082, 0x0000800A, 0x80000003, 0x00000009,
-	0x80008082, 0x00008009, 0x80000080, 0x00008083,
-	0x80000081, 0x00000001, 0x0000800B, 0x00008001,
-	0x00000080, 0x80008000, 0x00008001, 0x00000009
+	0x8000808B, 0x0000008B, 0x00008089, 0x00008003,
+	0x00008002, 0x00000080, 0x0000800A, 0x8000000A,
+	0x80008081, 0x00008080, 0x80000001, 0x80008008,
+	0x80008082, 0x8000800A, 0x00000003, 0x80000009,
+	0x00008082, 0x00008009, 0x00000080, 0x00008083,
+	0x00000081, 0x00000001, 0x0000800B, 0x80008001,
+	0x00000080, 0x00008000, 0x80008001, 0x00000009
 };
 
 static void keccak800_F(kripto_hash *s)
-- 
2.43.0


From 2247daa0aaaa7007b5b72ae3216e2f4329625f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:55 +0000
Subject: [PATCH 34/41] fix: Keccak-800 has 22 rounds by default

---
 lib/hash/keccak800.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hash/keccak800.c b/lib/hash/keccak800.c
index 66361a1..fd11d72 100644
--- a/lib/hash/keccak800.c
+++ b/lib/hash/keccak800.c
@@ -287,7 +287,7 @@ static kripto_hash *keccak800_recreate
 	s->o = s->i = 0;
 
 	s->r = r;
-	if(!s->r) s->r = 20;
+	if(!s->r) s->r = 22;
 
 	if(out_len > 49) out_len = 49; /* rate must not vanish */
 	s->rate = 100 - (out_len << 1);
-- 
2.43.0


From f9471f2b543afeda89eb0cab78346d619b72dd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:54 +0000
Subject: [PATCH 35/41] fix: ROR8_6 rotated by five bits

---
 include/kripto/rotate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kripto/rotate.h b/include/kripto/rotate.h
index 0b4c6cb..be006a1 100644
--- a/include/kripto/rotate.h
+++ b/include/kripto/rotate.h
@@ -331,7 +331,7 @@ static inline uint8_t ROL8_7(uint8_t x)
 #define ROR8_3 ROL8_5
 #define ROR8_4 ROL8_4
 #define ROR8_5 ROL8_3
-#define ROR8_6 ROL8_3
+#define ROR8_6 ROL8_2
 #define ROR8_7 ROL8_1
 
 static inline uint16_t ROL16_01(uint16_t x)
-- 
2.43.0


From 1ae0672f6be5585198f4d441560d33e45b3ff4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:06 +0000
Subject: [PATCH 36/41] fix: portable 32- and 64-bit rotations by zero shifted
 by the word size

---
 include/kripto/rotate.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kripto/rotate.h b/include/kripto/rotate.h
index be006a1..cbdf455 100644
--- a/include/kripto/rotate.h
+++ b/include/kripto/rotate.h
@@ -118,7 +118,7 @@ static inline uint32_t ROL32(uint32_t x, unsigned int r)
 #else
 
 	r &= 31;
-	return (x << r) | (x >> (32 - r));
+	return (x << r) | (x >> ((32 - r) & 31));
 
 #endif
 }
@@ -139,7 +139,7 @@ static inline uint32_t ROR32(uint32_t x, unsigned int r)
 #else
 
 	r &= 31;
-	return (x >> r) | (x << (32 - r));
+	return (x >> r) | (x << ((32 - r) & 31));
 
 #endif
 }
@@ -160,7 +160,7 @@ static inline uint64_t ROL64(uint64_t x, unsigned int r)
 #else
 
 	r &= 63;
-	return (x << r) | (x >> (64 - r));
+	return (x << r) | (x >> ((64 - r) & 63));
 
 #endif
 }
@@ -181,7 +181,7 @@ static inline uint64_t ROR64(uint64_t x, unsigned int r)
 #else
 
 	r &= 63;
-	return (x >> r) | (x << (64 - r));
+	return (x >> r) | (x << ((64 - r) & 63));
 
 #endif
 }
-- 
2.43.0


From 53e802523a72f7bf858f7ac176b2866f30943a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:46 +0000
Subject: [PATCH 37/41] fix: wipe the message block Whirlpool leaves on the
 stack

---
 lib/hash/whirlpool.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hash/whirlpool.c b/lib/hash/whirlpool.c
index 162852e..c037aa6 100644
--- a/lib/hash/whirlpool.c
+++ b/lib/hash/whirlpool.c
@@ -886,6 +886,8 @@ static void whirlpool_process(kripto_hash *s, const void *data)
 	s->h[5] ^= x5 ^ in[5];
 	s->h[6] ^= x6 ^ in[6];
 	s->h[7] ^= x7 ^ in[7];
+
+	kripto_memory_wipe(in, 64);
 }
 
 static kripto_hash *whirlpool_recreate
-- 
2.43.0


From 466da210dc63f0014cbeedad1068290dcb71f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:38 +0000
Subject: [PATCH 38/41] fix: built-in random generator leaked memory and freed
 its object when reseeding failed

---
 lib/random.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/lib/random.c b/lib/random.c
index 92c3d19..3d59942 100644
--- a/lib/random.c
+++ b/lib/random.c
@@ -103,7 +103,7 @@ static int seed(kripto_random *s, uint8_t *out, unsigned int len)
 		uint8_t unassigned[4];
 	} entropy;
 
-	s->mac = kripto_mac_hmac(kripto_hash_blake2s);
+	if(!s->mac) s->mac = kripto_mac_hmac(kripto_hash_blake2s);
 	if(!s->mac) return -1;
 
 	#if defined(KRIPTO_UNIX)
@@ -145,9 +145,6 @@ static int seed(kripto_random *s, uint8_t *out, unsigned int len)
 
 	kripto_memory_wipe(&entropy, sizeof(entropy));
 
-	s->output = 0;
-	s->time = time(NULL);
-
 	return 0;
 }
 
@@ -158,6 +155,8 @@ static kripto_random *create(void)
 	kripto_random *s = (kripto_random *)malloc(sizeof(kripto_random));
 	if(!s) return 0;
 
+	s->mac = 0;
+
 	if(seed(s, buf, 32)) goto err;
 
 	s->stream = kripto_stream_create
@@ -168,9 +167,13 @@ static kripto_random *create(void)
 	);
 	if(!s->stream) goto err;
 
+	s->output = 0;
+	s->time = time(NULL);
+
 	return s;
 
 err:
+	free(s->mac);
 	free(s);
 	return 0;
 }
@@ -268,6 +271,7 @@ size_t kripto_random_gen(kripto_random *s, void *out, size_t len)
 
 	uint8_t buf[32];
 	uint8_t iv[8];
+	kripto_stream *stream;
 
 	s->output += len;
 
@@ -279,26 +283,26 @@ size_t kripto_random_gen(kripto_random *s, void *out, size_t len)
 	{
 		kripto_stream_prng(s->stream, iv, 8);
 
-		if(seed(s, buf, 32)) goto err;
+		if(seed(s, buf, 32)) return 0;
 
-		s->stream = kripto_stream_recreate
+		stream = kripto_stream_create
 		(
-			s->stream, 0,
+			kripto_stream_chacha, 0,
 			buf, 32,
 			iv, 8
 		);
-		if(!s->stream) goto err;
+		if(!stream) return 0;
+
+		kripto_stream_destroy(s->stream);
+		s->stream = stream;
+		s->output = 0;
+		s->time = time(NULL);
 	}
 
 	kripto_stream_prng(s->stream, out, len);
 
 	return len;
 
-err:
-	kripto_memory_wipe(s, sizeof(kripto_random));
-	free(s);
-	return 0;
-
 	#endif
 }
 
-- 
2.43.0


From 7d20c5c0e04fa4e5072b157367d64edceffdb322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:19 +0000
Subject: [PATCH 39/41] fix: built-in random generator left its seed on the
 stack

---
 lib/random.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/random.c b/lib/random.c
index 3d59942..77efc00 100644
--- a/lib/random.c
+++ b/lib/random.c
@@ -122,7 +122,7 @@ static int seed(kripto_random *s, uint8_t *out, unsigned int len)
 		&entropy, sizeof(entropy),
 		0, 0,
 		out, len
-	)) return -1;
+	)) goto err;
 
 	memcpy(entropy.unassigned, &s, 4);
 
@@ -141,11 +141,17 @@ static int seed(kripto_random *s, uint8_t *out, unsigned int len)
 		&entropy, sizeof(entropy),
 		out, len,
 		out, len
-	)) return -1;
+	)) goto err;
 
 	kripto_memory_wipe(&entropy, sizeof(entropy));
 
 	return 0;
+
+err:
+	kripto_memory_wipe(&entropy, sizeof(entropy));
+	kripto_memory_wipe(out, len);
+
+	return -1;
 }
 
 static kripto_random *create(void)
@@ -167,12 +173,15 @@ static kripto_random *create(void)
 	);
 	if(!s->stream) goto err;
 
+	kripto_memory_wipe(buf, 32);
+
 	s->output = 0;
 	s->time = time(NULL);
 
 	return s;
 
 err:
+	kripto_memory_wipe(buf, 32);
 	free(s->mac);
 	free(s);
 	return 0;
@@ -291,6 +300,10 @@ size_t kripto_random_gen(kripto_random *s, void *out, size_t len)
 			buf, 32,
 			iv, 8
 		);
+
+		kripto_memory_wipe(buf, 32);
+		kripto_memory_wipe(iv, 8);
+
 		if(!stream) return 0;
 
 		kripto_stream_destroy(s->stream);
-- 
2.43.0


From 1c3cbb3a941ee7a4c9bac531664a931f1f2b8fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:01 +0000
Subject: [PATCH 40/41] fix: define the Threefish tweak functions the headers
 declare

---
 lib/block/threefish1024.c | 5 +++++
 lib/block/threefish256.c  | 5 +++++
 lib/block/threefish512.c  | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/lib/block/threefish1024.c b/lib/block/threefish1024.c
index d93d2f3..63aff80 100644
--- a/lib/block/threefish1024.c
+++ b/lib/block/threefish1024.c
@@ -433,3 +433,8 @@ static const kripto_desc_block threefish1024 =
 };
 
 const kripto_desc_block *const kripto_block_threefish1024 = &threefish1024;
+
+void kripto_block_threefish1024_tweak(kripto_block *s, const void *tweak)
+{
+	threefish1024_tweak(s, tweak, 16);
+}
diff --git a/lib/block/threefish256.c b/lib/block/threefish256.c
index f114214..ab7f7a1 100644
--- a/lib/block/threefish256.c
+++ b/lib/block/threefish256.c
@@ -225,3 +225,8 @@ static const kripto_desc_block threefish256 =
 };
 
 const kripto_desc_block *const kripto_block_threefish256 = &threefish256;
+
+void kripto_block_threefish256_tweak(kripto_block *s, const void *tweak)
+{
+	threefish256_tweak(s, tweak, 16);
+}
diff --git a/lib/block/threefish512.c b/lib/block/threefish512.c
index a97d6ac..f2d41d1 100644
--- a/lib/block/threefish512.c
+++ b/lib/block/threefish512.c
@@ -294,3 +294,8 @@ static const kripto_desc_block threefish512 =
 };
 
 const kripto_desc_block *const kripto_block_threefish512 = &threefish512;
+
+void kripto_block_threefish512_tweak(kripto_block *s, const void *tweak)
+{
+	threefish512_tweak(s, tweak, 16);
+}
-- 
2.43.0


From e46f744304b7489b5bffeaa00933fb569f5a876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:56 +0000
Subject: [PATCH 41/41] fix: scrypt wrote past its buffer where size_t has 32
 bits and p blocks alone overflow

---
 lib/scrypt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/scrypt.c b/lib/scrypt.c
index cbf069f..3ab52cd 100644
--- a/lib/scrypt.c
+++ b/lib/scrypt.c
@@ -224,6 +224,7 @@ int kripto_scrypt
 	if(!r || (uint64_t)r * p > UINT_MAX >> 7) return -1;
 
 	len = (size_t)r << 7;
+	if(SIZE_MAX / len < (size_t)p + 2) return -1;
 	if(n > SIZE_MAX / len - p - 2) return -1;
 	len *= p + n + 2;
 
-- 
2.43.0

