From 44ab38a8b7523e3c8a80b4a747bff13f9c9960cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:17 +0000
Subject: [PATCH 01/58] fix: fall back to the closest enclosing network when
 looking up an address

The search stopped with an empty result as soon as the tree ended below a
matching network, it read beyond the end of the address for host networks, and
it could return an IPv6 network for an IPv4 address.
---
 src/database.c | 37 +++++++++++++++++++++----------------
 src/network.c  | 14 ++++++++++++--
 2 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/src/database.c b/src/database.c
index 8bbbe79..c704852 100644
--- a/src/database.c
+++ b/src/database.c
@@ -860,13 +860,14 @@ static int __loc_database_lookup_handle_leaf(struct loc_database* db, const stru
 		return r;
 	}
 
-	// Check if the given IP address is inside the network
-	if (!loc_network_matches_address(*network, address)) {
+	// Check if the given IP address is inside the network (and of the same family)
+	if (loc_network_address_family(*network) != loc_address_family(address)
+			|| !loc_network_matches_address(*network, address)) {
 		DEBUG(db->ctx, "Searched address is not part of the network\n");
 
 		loc_network_unref(*network);
 		*network = NULL;
-		return 1;
+		return 0;
 	}
 
 	// A network was found and the IP address matches
@@ -887,14 +888,18 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 	if (!node_v1)
 		return 1;
 
-	// Follow the path
-	int bit = loc_address_get_bit(address, level);
-	loc_address_set_bit(network_address, level, bit);
+	// Follow the path until we have used up all bits of the address
+	if (level < 128) {
+		int bit = loc_address_get_bit(address, level);
+		loc_address_set_bit(network_address, level, bit);
 
-	if (bit == 0)
-		node_index = be32toh(node_v1->zero);
-	else
-		node_index = be32toh(node_v1->one);
+		if (bit == 0)
+			node_index = be32toh(node_v1->zero);
+		else
+			node_index = be32toh(node_v1->one);
+	} else {
+		node_index = 0;
+	}
 
 	// If the node index is zero, the tree ends here
 	// and we cannot descend any further
@@ -908,14 +913,14 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 		// Move on to the next node
 		r = __loc_database_lookup(db, address, network, network_address, node_index, level + 1);
 
-		// End here if a result was found
-		if (r == 0)
-			return r;
-
 		// Raise any errors
-		else if (r < 0)
+		if (r)
 			return r;
 
+		// End here if a result was found
+		if (*network)
+			return 0;
+
 		DEBUG(db->ctx, "No match found below level %u\n", level);
 	} else {
 		DEBUG(db->ctx, "Tree ended at level %u\n", level);
@@ -924,7 +929,7 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 	// If this node has a leaf, we will check if it matches
 	if (__loc_database_node_is_leaf(node_v1)) {
 		r = __loc_database_lookup_handle_leaf(db, address, network, network_address, level, node_v1);
-		if (r < 0)
+		if (r)
 			return r;
 	}
 
diff --git a/src/network.c b/src/network.c
index 69306a9..62cefb7 100644
--- a/src/network.c
+++ b/src/network.c
@@ -663,11 +663,21 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 		struct in6_addr* address, unsigned int prefix, const struct loc_database_network_v1* dbobj) {
 	char country_code[3] = "\0\0";
 
+	// Check if we have received a valid prefix
+	if (prefix > 128) {
+		errno = ERANGE;
+		return 1;
+	}
+
+	// Drop any bits that are not part of the prefix as they have nothing to do with this network
+	const struct in6_addr bitmask = loc_prefix_to_bitmask(prefix);
+	struct in6_addr first_address = loc_address_and(address, &bitmask);
+
 	// Adjust prefix for IPv4
-	if (IN6_IS_ADDR_V4MAPPED(address))
+	if (IN6_IS_ADDR_V4MAPPED(&first_address))
 		prefix -= 96;
 
-	int r = loc_network_new(ctx, network, address, prefix);
+	int r = loc_network_new(ctx, network, &first_address, prefix);
 	if (r) {
 		ERROR(ctx, "Could not allocate a new network: %m\n");
 		return r;
-- 
2.43.0


From 58fbda11dd0a990c772a23f58196b7db92310164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:20 +0000
Subject: [PATCH 02/58] fix: write countries sorted and without leftovers of
 the previous country

The reader performs a binary search over the countries, so that any country
that was not added in alphabetical order could not be found again. Countries
without a continent inherited the continent of the previous country, and
a reference to each country was lost.
---
 src/country.c | 6 ++----
 src/writer.c  | 8 ++++++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/country.c b/src/country.c
index 8152a89..45df352 100644
--- a/src/country.c
+++ b/src/country.c
@@ -177,12 +177,10 @@ int loc_country_to_database_v1(struct loc_country* country,
 	off_t name = 0;
 
 	// Add country code
-	if (*country->code)
-		loc_country_code_copy(dbobj->code, country->code);
+	loc_country_code_copy(dbobj->code, country->code);
 
 	// Add continent code
-	if (*country->continent_code)
-		loc_country_code_copy(dbobj->continent_code, country->continent_code);
+	loc_country_code_copy(dbobj->continent_code, country->continent_code);
 
 	// Save the name string in the string pool
 	if (country->name)
diff --git a/src/writer.c b/src/writer.c
index ec5f896..fe13a00 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -526,6 +526,9 @@ static int loc_database_write_countries(struct loc_writer* writer,
 	DEBUG(writer->ctx, "Countries section starts at %jd bytes\n", (intmax_t)*offset);
 	header->countries_offset = htobe32(*offset);
 
+	// Sort the countries first
+	loc_country_list_sort(writer->country_list);
+
 	const size_t countries_count = loc_country_list_size(writer->country_list);
 
 	struct loc_database_country_v1 block;
@@ -533,6 +536,8 @@ static int loc_database_write_countries(struct loc_writer* writer,
 
 	for (unsigned int i = 0; i < countries_count; i++) {
 		struct loc_country* country = loc_country_list_get(writer->country_list, i);
+		if (!country)
+			return 1;
 
 		// Convert country into database format
 		loc_country_to_database_v1(country, writer->pool, &block);
@@ -540,6 +545,9 @@ static int loc_database_write_countries(struct loc_writer* writer,
 		// Write to disk
 		*offset += fwrite(&block, 1, sizeof(block), f);
 		block_length += sizeof(block);
+
+		// Unref country
+		loc_country_unref(country);
 	}
 
 	DEBUG(writer->ctx, "Countries section has a length of %zu bytes\n", block_length);
-- 
2.43.0


From 112947db3af3d0845b29bbf0882b2a4aa4d16ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:11 +0000
Subject: [PATCH 03/58] fix: do not write uninitialized memory into the
 networks section

---
 src/network.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/network.c b/src/network.c
index 62cefb7..1d8ddc8 100644
--- a/src/network.c
+++ b/src/network.c
@@ -647,6 +647,9 @@ int loc_network_merge(struct loc_network** n,
 }
 
 int loc_network_to_database_v1(struct loc_network* network, struct loc_database_network_v1* dbobj) {
+	// Do not write any uninitialized memory to disk
+	memset(dbobj, 0, sizeof(*dbobj));
+
 	// Add country code
 	loc_country_code_copy(dbobj->country_code, network->country_code);
 
-- 
2.43.0


From ce30023dc36c0218e5545b430688ad6709f8e37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:49 +0000
Subject: [PATCH 04/58] fix: report any errors when a database could not be
 written

Failed writes were ignored, which either resulted in a broken database although
success had been reported, or in an endless loop when aligning a section on a full disk.
On errors, the queues of nodes and networks were lost.
---
 src/as.c            |   3 +
 src/country.c       |   3 +
 src/python/writer.c |   9 ++-
 src/writer.c        | 149 +++++++++++++++++++++++++++++++++-----------
 4 files changed, 125 insertions(+), 39 deletions(-)

diff --git a/src/as.c b/src/as.c
index 97c0a56..dfc8568 100644
--- a/src/as.c
+++ b/src/as.c
@@ -135,6 +135,9 @@ int loc_as_to_database_v1(struct loc_as* as, struct loc_stringpool* pool,
 
 	// Save the name string in the string pool
 	off_t name = loc_stringpool_add(pool, as->name ? as->name : "");
+	if (name < 0)
+		return 1;
+
 	dbobj->name = htobe32(name);
 
 	return 0;
diff --git a/src/country.c b/src/country.c
index 45df352..b99d0fa 100644
--- a/src/country.c
+++ b/src/country.c
@@ -186,6 +186,9 @@ int loc_country_to_database_v1(struct loc_country* country,
 	if (country->name)
 		name = loc_stringpool_add(pool, country->name);
 
+	if (name < 0)
+		return 1;
+
 	dbobj->name = htobe32(name);
 
 	return 0;
diff --git a/src/python/writer.c b/src/python/writer.c
index 1c06384..b4d8377 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -232,9 +232,14 @@ static PyObject* Writer_write(WriterObject* self, PyObject* args) {
 	}
 
 	int r = loc_writer_write(self->writer, f, (enum loc_database_version)version);
-	fclose(f);
+	if (r) {
+		PyErr_SetFromErrno(PyExc_OSError);
+		fclose(f);
+		return NULL;
+	}
 
-	// Raise any errors
+	// Make sure that everything made it to the disk
+	r = fclose(f);
 	if (r) {
 		PyErr_SetFromErrno(PyExc_OSError);
 		return NULL;
diff --git a/src/writer.c b/src/writer.c
index fe13a00..6a2fa3b 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -280,10 +280,32 @@ static void make_magic(struct loc_writer* writer, struct loc_database_magic* mag
 	magic->version = version;
 }
 
-static void align_page_boundary(off_t* offset, FILE* f) {
+/*
+	Writes the given block and moves the offset forward
+*/
+static int write_block(struct loc_writer* writer, const void* data, const size_t length,
+		off_t* offset, FILE* f) {
+	if (fwrite(data, 1, length, f) < length) {
+		ERROR(writer->ctx, "Could not write to the database: %m\n");
+		return 1;
+	}
+
+	*offset += length;
+
+	return 0;
+}
+
+static int align_page_boundary(struct loc_writer* writer, off_t* offset, FILE* f) {
+	int r;
+
 	// Move to next page boundary
-	while (*offset % LOC_DATABASE_PAGE_SIZE > 0)
-		*offset += fwrite("", 1, 1, f);
+	while (*offset % LOC_DATABASE_PAGE_SIZE > 0) {
+		r = write_block(writer, "", 1, offset, f);
+		if (r)
+			return r;
+	}
+
+	return 0;
 }
 
 static int loc_database_write_pool(struct loc_writer* writer,
@@ -294,6 +316,10 @@ static int loc_database_write_pool(struct loc_writer* writer,
 
 	// Write the pool
 	size_t pool_length = loc_stringpool_write(writer->pool, f);
+	if (pool_length < loc_stringpool_get_size(writer->pool)) {
+		ERROR(writer->ctx, "Could not write the string pool: %m\n");
+		return 1;
+	}
 	*offset += pool_length;
 
 	DEBUG(writer->ctx, "Pool has a length of %zu bytes\n", pool_length);
@@ -314,6 +340,7 @@ static int loc_database_write_as_section(struct loc_writer* writer,
 
 	struct loc_database_as_v1 block;
 	size_t block_length = 0;
+	int r;
 
 	for (unsigned int i = 0; i < as_count; i++) {
 		struct loc_as* as = loc_as_list_get(writer->as_list, i);
@@ -321,22 +348,26 @@ static int loc_database_write_as_section(struct loc_writer* writer,
 			return 1;
 
 		// Convert AS into database format
-		loc_as_to_database_v1(as, writer->pool, &block);
-
-		// Write to disk
-		*offset += fwrite(&block, 1, sizeof(block), f);
-		block_length += sizeof(block);
+		r = loc_as_to_database_v1(as, writer->pool, &block);
 
 		// Unref AS
 		loc_as_unref(as);
+
+		if (r)
+			return r;
+
+		// Write to disk
+		r = write_block(writer, &block, sizeof(block), offset, f);
+		if (r)
+			return r;
+
+		block_length += sizeof(block);
 	}
 
 	DEBUG(writer->ctx, "AS section has a length of %zu bytes\n", block_length);
 	header->as_length = htobe32(block_length);
 
-	align_page_boundary(offset, f);
-
-	return 0;
+	return align_page_boundary(writer, offset, f);
 }
 
 struct node {
@@ -424,6 +455,7 @@ static int loc_database_write_networks(struct loc_writer* writer,
 	// Add root
 	struct loc_network_tree_node* root = loc_network_tree_get_root(writer->networks);
 	node = make_node(root);
+	loc_network_tree_node_unref(root);
 	if (!node)
 		return 1;
 
@@ -443,6 +475,11 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 			child_node = make_node(node_zero);
 			loc_network_tree_node_unref(node_zero);
+			if (!child_node) {
+				free_node(node);
+				r = 1;
+				goto ERROR;
+			}
 
 			TAILQ_INSERT_TAIL(&nodes, child_node, nodes);
 		}
@@ -453,6 +490,11 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 			child_node = make_node(node_one);
 			loc_network_tree_node_unref(node_one);
+			if (!child_node) {
+				free_node(node);
+				r = 1;
+				goto ERROR;
+			}
 
 			TAILQ_INSERT_TAIL(&nodes, child_node, nodes);
 		}
@@ -466,14 +508,15 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 			// Append network to be written out later
 			struct network* nw = make_network(network);
+			loc_network_unref(network);
 			if (!nw) {
 				free_node(node);
-				return 1;
+				r = 1;
+				goto ERROR;
 			}
 			TAILQ_INSERT_TAIL(&networks, nw, networks);
 
 			db_node.network = htobe32(network_index++);
-			loc_network_unref(network);
 		} else {
 			db_node.network = htobe32(0xffffffff);
 		}
@@ -482,17 +525,20 @@ static int loc_database_write_networks(struct loc_writer* writer,
 		DEBUG(writer->ctx, "Writing node %p (0 = %d, 1 = %d)\n",
 			node, node->index_zero, node->index_one);
 
-		*offset += fwrite(&db_node, 1, sizeof(db_node), f);
-		network_tree_length += sizeof(db_node);
-
 		free_node(node);
-	}
 
-	loc_network_tree_node_unref(root);
+		r = write_block(writer, &db_node, sizeof(db_node), offset, f);
+		if (r)
+			goto ERROR;
+
+		network_tree_length += sizeof(db_node);
+	}
 
 	header->network_tree_length = htobe32(network_tree_length);
 
-	align_page_boundary(offset, f);
+	r = align_page_boundary(writer, offset, f);
+	if (r)
+		goto ERROR;
 
 	DEBUG(writer->ctx, "Networks data section starts at %jd bytes\n", (intmax_t)*offset);
 	header->network_data_offset = htobe32(*offset);
@@ -505,20 +551,38 @@ static int loc_database_write_networks(struct loc_writer* writer,
 
 		// Prepare what we are writing to disk
 		r = loc_network_to_database_v1(nw->network, &db_network);
+		free_network(nw);
 		if (r)
-			return r;
+			goto ERROR;
 
-		*offset += fwrite(&db_network, 1, sizeof(db_network), f);
-		network_data_length += sizeof(db_network);
+		r = write_block(writer, &db_network, sizeof(db_network), offset, f);
+		if (r)
+			goto ERROR;
 
-		free_network(nw);
+		network_data_length += sizeof(db_network);
 	}
 
 	header->network_data_length = htobe32(network_data_length);
 
-	align_page_boundary(offset, f);
+	r = align_page_boundary(writer, offset, f);
 
-	return 0;
+ERROR:
+	// Release anything that is left in the queues
+	while (!TAILQ_EMPTY(&nodes)) {
+		node = TAILQ_FIRST(&nodes);
+		TAILQ_REMOVE(&nodes, node, nodes);
+
+		free_node(node);
+	}
+
+	while (!TAILQ_EMPTY(&networks)) {
+		struct network* nw = TAILQ_FIRST(&networks);
+		TAILQ_REMOVE(&networks, nw, networks);
+
+		free_network(nw);
+	}
+
+	return r;
 }
 
 static int loc_database_write_countries(struct loc_writer* writer,
@@ -533,6 +597,7 @@ static int loc_database_write_countries(struct loc_writer* writer,
 
 	struct loc_database_country_v1 block;
 	size_t block_length = 0;
+	int r;
 
 	for (unsigned int i = 0; i < countries_count; i++) {
 		struct loc_country* country = loc_country_list_get(writer->country_list, i);
@@ -540,22 +605,26 @@ static int loc_database_write_countries(struct loc_writer* writer,
 			return 1;
 
 		// Convert country into database format
-		loc_country_to_database_v1(country, writer->pool, &block);
-
-		// Write to disk
-		*offset += fwrite(&block, 1, sizeof(block), f);
-		block_length += sizeof(block);
+		r = loc_country_to_database_v1(country, writer->pool, &block);
 
 		// Unref country
 		loc_country_unref(country);
+
+		if (r)
+			return r;
+
+		// Write to disk
+		r = write_block(writer, &block, sizeof(block), offset, f);
+		if (r)
+			return r;
+
+		block_length += sizeof(block);
 	}
 
 	DEBUG(writer->ctx, "Countries section has a length of %zu bytes\n", block_length);
 	header->countries_length = htobe32(block_length);
 
-	align_page_boundary(offset, f);
-
-	return 0;
+	return align_page_boundary(writer, offset, f);
 }
 
 static int loc_writer_create_signature(struct loc_writer* writer,
@@ -699,7 +768,9 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 		return r;
 
 	// Write the magic
-	offset += fwrite(&magic, 1, sizeof(magic), f);
+	r = write_block(writer, &magic, sizeof(magic), &offset, f);
+	if (r)
+		return r;
 
 	// Skip the space we need to write the header later
 	r = fseek(f, sizeof(header), SEEK_CUR);
@@ -709,7 +780,9 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 	}
 	offset += sizeof(header);
 
-	align_page_boundary(&offset, f);
+	r = align_page_boundary(writer, &offset, f);
+	if (r)
+		return r;
 
 	// Write all ASes
 	r = loc_database_write_as_section(writer, &header, &offset, f);
@@ -779,7 +852,7 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 	bytes_written = fwrite(&header, 1, sizeof(header), f);
 	if (bytes_written < sizeof(header)) {
 		ERROR(writer->ctx, "Could not write header: %s\n", strerror(errno));
-		return r;
+		return 1;
 	}
 
 	// Seek back to the end
@@ -788,7 +861,9 @@ LOC_EXPORT int loc_writer_write(struct loc_writer* writer, FILE* f, enum loc_dat
 		return r;
 
 	// Flush everything
-	fflush(f);
+	r = fflush(f);
+	if (r)
+		ERROR(writer->ctx, "Could not flush the database: %m\n");
 
 	return r;
 }
-- 
2.43.0


From aed49cb501164430e0818e11ad709b778e102011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:21 +0000
Subject: [PATCH 05/58] fix: report errors when a signature could not be
 created

OpenSSL functions return zero on error, which was passed on as success so that
databases were written without (or with an invalid) signature.
---
 src/writer.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/writer.c b/src/writer.c
index 6a2fa3b..0c2230f 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -631,19 +631,32 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 		struct loc_database_header_v1* header, FILE* f, EVP_PKEY* private_key,
 		char* signature, size_t* length) {
 	size_t bytes_read = 0;
+	int r;
 
 	DEBUG(writer->ctx, "Creating signature...\n");
 
 	// Read file from the beginning
-	rewind(f);
+	r = fseek(f, 0, SEEK_SET);
+	if (r) {
+		ERROR(writer->ctx, "Could not rewind the database: %m\n");
+		return 1;
+	}
+
+	// Reset any errors from previous attempts
+	clearerr(f);
 
 	// Create a new context for signing
 	EVP_MD_CTX* mdctx = EVP_MD_CTX_new();
+	if (!mdctx) {
+		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		return 1;
+	}
 
 	// Initialise the context
-	int r = EVP_DigestSignInit(mdctx, NULL, NULL, NULL, private_key);
+	r = EVP_DigestSignInit(mdctx, NULL, NULL, NULL, private_key);
 	if (r != 1) {
 		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = -1;
 		goto END;
 	}
 
@@ -662,6 +675,7 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 	r = EVP_DigestSignUpdate(mdctx, &magic, sizeof(magic));
 	if (r != 1) {
 		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = -1;
 		goto END;
 	}
 
@@ -671,11 +685,17 @@ static int loc_writer_create_signature(struct loc_writer* writer,
 	r = EVP_DigestSignUpdate(mdctx, header, sizeof(*header));
 	if (r != 1) {
 		ERROR(writer->ctx, "%s\n", ERR_error_string(ERR_get_error(), NULL));
+		r = -1;
 		goto END;
 	}
 
 	// Skip header
-	fseek(f, sizeof(*header), SEEK_CUR);
+	r = fseek(f, sizeof(*header), SEEK_CUR);
+	if (r) {
+		ERROR(writer->ctx, "Could not seek to position after header: %m\n");
+		r = 1;
+		goto END;
+	}
 
 	// Walk through the file in chunks of 64kB
 	char buffer[64 * 1024];
-- 
2.43.0


From db92a1dd00586e4b417f54d89afc0e40cfad9932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:45 +0000
Subject: [PATCH 06/58] fix: do not loop forever when a database cannot be read
 to verify it

A read error was never noticed. A first signature that could not be checked, because it
was made with another type of key, prevented the second one from being
checked at all.
---
 src/database.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/database.c b/src/database.c
index c704852..525febd 100644
--- a/src/database.c
+++ b/src/database.c
@@ -552,6 +552,13 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 	int r = 0;
 
 	EVP_MD_CTX* mdctx = EVP_MD_CTX_new();
+	if (!mdctx) {
+		ERROR(db->ctx, "Error initializing signature validation: %s\n",
+			ERR_error_string(ERR_get_error(), NULL));
+		r = 1;
+
+		goto CLEANUP;
+	}
 
 	// Initialise hash function
 	r = EVP_DigestVerifyInit(mdctx, NULL, NULL, NULL, pkey);
@@ -630,6 +637,13 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 	while (!feof(db->f)) {
 		bytes_read = fread(buffer, 1, sizeof(buffer), db->f);
 
+		if (ferror(db->f)) {
+			ERROR(db->ctx, "Error reading from file: %m\n");
+			r = 1;
+
+			goto CLEANUP;
+		}
+
 		hexdump(db->ctx, buffer, bytes_read);
 
 		r = EVP_DigestVerifyUpdate(mdctx, buffer, bytes_read);
@@ -659,8 +673,6 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 		} else {
 			ERROR(db->ctx, "Error verifying the first signature: %s\n",
 				ERR_error_string(ERR_get_error(), NULL));
-			r = -1;
-			goto CLEANUP;
 		}
 	}
 
@@ -679,8 +691,6 @@ LOC_EXPORT int loc_database_verify(struct loc_database* db, FILE* f) {
 		} else {
 			ERROR(db->ctx, "Error verifying the second signature: %s\n",
 				ERR_error_string(ERR_get_error(), NULL));
-			r = -1;
-			goto CLEANUP;
 		}
 	}
 
-- 
2.43.0


From 41f46f989a0c06295e5727c1f0bb6a36c2470d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:48 +0000
Subject: [PATCH 07/58] fix: make the string pool grow as much as needed and
 report errors

Strings that are longer than one block were written beyond the end of the
allocated memory. If the pool could not be grown, all previous strings were lost
and the error code was used as a valid offset.
---
 src/stringpool.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/stringpool.c b/src/stringpool.c
index 9986a61..e2069ec 100644
--- a/src/stringpool.c
+++ b/src/stringpool.c
@@ -45,19 +45,20 @@ struct loc_stringpool {
 static int loc_stringpool_grow(struct loc_stringpool* pool, const size_t size) {
 	DEBUG(pool->ctx, "Growing string pool by %zu byte(s)\n", size);
 
-	// Increment size
-	pool->size += size;
-
 	// Reallocate blocks
-	pool->blocks = realloc(pool->blocks, pool->size);
-	if (!pool->blocks) {
+	char* blocks = realloc(pool->blocks, pool->size + size);
+	if (!blocks) {
 		ERROR(pool->ctx, "Could not grow string pool: %m\n");
 		return 1;
 	}
 
-	// Update data pointer
+	// Update blocks & data pointer
+	pool->blocks = blocks;
 	pool->data = pool->blocks;
 
+	// Increment size
+	pool->size += size;
+
 	return 0;
 }
 
@@ -73,10 +74,10 @@ static off_t loc_stringpool_append(struct loc_stringpool* pool, const char* stri
 	const size_t length = strlen(string) + 1;
 
 	// Make sure we have enough space
-	if (pool->length + length > pool->size) {
+	while (pool->length + length > pool->size) {
 		int r = loc_stringpool_grow(pool, LOC_STRINGPOOL_BLOCK_SIZE);
 		if (r)
-			return r;
+			return -1;
 	}
 
 	off_t offset = pool->length;
@@ -181,7 +182,7 @@ static off_t loc_stringpool_find(struct loc_stringpool* pool, const char* s) {
 
 		// Error!
 		if (!string)
-			return 1;
+			return -1;
 
 		// Is this a match?
 		if (strcmp(s, string) == 0)
-- 
2.43.0


From 37256686fc0893850a35a4194ecedd84f0de90fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:45 +0000
Subject: [PATCH 08/58] fix: do not read beyond the end of truncated or damaged
 databases

The boundary check overflowed for anything larger than the file, sections were never
checked, strings could run over the end of the pool, and a database with an empty
tree made the enumerator access memory that was never allocated.
---
 src/database.c   | 25 ++++++++++++++++---------
 src/stringpool.c |  6 ++++++
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/database.c b/src/database.c
index 525febd..37b4988 100644
--- a/src/database.c
+++ b/src/database.c
@@ -152,7 +152,7 @@ static inline int __loc_database_check_boundaries(struct loc_database* db,
 	size_t offset = p - db->data;
 
 	// Return if everything is within the boundary
-	if (offset <= db->length - length)
+	if (length <= (size_t)db->length && offset <= (size_t)db->length - length)
 		return 1;
 
 	DEBUG(db->ctx, "Database read check failed at %p for %zu byte(s)\n", p, length);
@@ -275,6 +275,13 @@ static int loc_database_mmap(struct loc_database* db) {
 */
 static int loc_database_map_objects(struct loc_database* db, struct loc_database_objects* objects,
 		const size_t size, const off_t offset, const size_t length) {
+	// Check if the entire section is part of the mapped area
+	if (!__loc_database_check_boundaries(db, db->data + offset, length)) {
+		ERROR(db->ctx, "Section at %jd with %zu byte(s) is out of range\n",
+			(intmax_t)offset, length);
+		return 1;
+	}
+
 	// Store parameters
 	objects->data   = db->data + offset;
 	objects->length = length;
@@ -892,6 +899,12 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 
 	int r;
 
+	// Check boundaries
+	if ((size_t)node_index >= db->network_node_objects.count) {
+		errno = ERANGE;
+		return 1;
+	}
+
 	// Fetch the next node
 	node_v1 = (struct loc_database_network_node_v1*)loc_database_object(db,
 		&db->network_node_objects, sizeof(*node_v1), node_index);
@@ -914,12 +927,6 @@ static int __loc_database_lookup(struct loc_database* db, const struct in6_addr*
 	// If the node index is zero, the tree ends here
 	// and we cannot descend any further
 	if (node_index > 0) {
-		// Check boundaries
-		if ((size_t)node_index >= db->network_node_objects.count) {
-			errno = ERANGE;
-			return 1;
-		}
-
 		// Move on to the next node
 		r = __loc_database_lookup(db, address, network, network_address, node_index, level + 1);
 
@@ -1126,8 +1133,8 @@ LOC_EXPORT int loc_database_enumerator_new(struct loc_database_enumerator** enum
 	// Flatten output?
 	e->flatten = (flags & LOC_DB_ENUMERATOR_FLAGS_FLATTEN);
 
-	// Initialise graph search
-	e->network_stack_depth = 1;
+	// Initialise graph search (unless there is nothing to search)
+	e->network_stack_depth = (db->network_node_objects.count > 0) ? 1 : 0;
 	e->networks_visited = calloc(db->network_node_objects.count, sizeof(*e->networks_visited));
 	if (!e->networks_visited) {
 		ERROR(db->ctx, "Could not allocated visited networks: %m\n");
diff --git a/src/stringpool.c b/src/stringpool.c
index e2069ec..0dceb7e 100644
--- a/src/stringpool.c
+++ b/src/stringpool.c
@@ -162,6 +162,12 @@ const char* loc_stringpool_get(struct loc_stringpool* pool, off_t offset) {
 		return NULL;
 	}
 
+	// The string must be terminated inside the pool
+	if (!memchr(pool->data + offset, '\0', pool->length - offset)) {
+		errno = ERANGE;
+		return NULL;
+	}
+
 	// Return any data that we have in memory
 	return pool->data + offset;
 }
-- 
2.43.0


From 1de9d01f8b789a842a7f0b5905bd89a42165a4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:48 +0000
Subject: [PATCH 09/58] fix: make room for the deepest possible path in the
 network enumerator

The last element of the stack was written past its end, the stack could not hold all nodes
of a full path, and trees that are deeper than an address caused
a write outside of the address.
---
 src/database.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/database.c b/src/database.c
index 37b4988..8e25606 100644
--- a/src/database.c
+++ b/src/database.c
@@ -96,7 +96,8 @@ struct loc_database {
 	struct loc_database_objects country_objects;
 };
 
-#define MAX_STACK_DEPTH 256
+// The root plus up to two nodes for each bit of an address
+#define MAX_STACK_DEPTH (1 + 2 * 128)
 
 struct loc_node_stack {
 	off_t offset;
@@ -128,7 +129,7 @@ struct loc_database_enumerator {
 
 	// Network state
 	struct in6_addr network_address;
-	struct loc_node_stack network_stack[MAX_STACK_DEPTH];
+	struct loc_node_stack network_stack[MAX_STACK_DEPTH + 1];
 	int network_stack_depth;
 	unsigned int* networks_visited;
 
@@ -1288,6 +1289,13 @@ static int loc_database_enumerator_stack_push_node(
 		return 1;
 	}
 
+	// Check if we are not descending further than the length of an address
+	if (depth > 128) {
+		ERROR(e->ctx, "Network tree is too deep\n");
+		errno = ERANGE;
+		return 1;
+	}
+
 	// Check if the node is in range
 	if (offset >= (off_t)e->db->network_node_objects.count) {
 		ERROR(e->ctx, "Trying to add invalid node with offset %jd/%zu\n",
-- 
2.43.0


From 59da2820ae308c82f0f3302f13ae106728eb3c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:34 +0000
Subject: [PATCH 10/58] fix: do not access networks after they have been merged

The prefix of the network was read after the last reference to it had been dropped
when it was removed from the tree.
---
 src/network-tree.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/network-tree.c b/src/network-tree.c
index 7096625..c2ebc18 100644
--- a/src/network-tree.c
+++ b/src/network-tree.c
@@ -351,6 +351,9 @@ static int loc_network_tree_merge_step(struct loc_network* network, void* data)
 	struct loc_network* m = NULL;
 	int r;
 
+	// Fetch the prefix now, because the network might be freed when it is being merged
+	const unsigned int prefix = loc_network_prefix(network);
+
 	// How many networks do we have?
 	size_t i = loc_network_list_size(ctx->networks);
 
@@ -431,8 +434,6 @@ static int loc_network_tree_merge_step(struct loc_network* network, void* data)
 		n = NULL;
 	}
 
-	const unsigned int prefix = loc_network_prefix(network);
-
 	// Remove any networks that we cannot merge
 	loc_network_list_remove_with_prefix_smaller_than(ctx->networks, prefix);
 
-- 
2.43.0


From 7d045859d8fe81e4a15f9958b252645fa0b39c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:37 +0000
Subject: [PATCH 11/58] fix: do not crash when running out of memory in the
 network tree

---
 src/network-tree.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/network-tree.c b/src/network-tree.c
index c2ebc18..8f0f38f 100644
--- a/src/network-tree.c
+++ b/src/network-tree.c
@@ -105,6 +105,8 @@ static struct loc_network_tree_node* loc_network_tree_get_path(struct loc_networ
 	for (unsigned int i = 0; i < prefix; i++) {
 		// Check if the ith bit is one or zero
 		node = loc_network_tree_get_node(node, loc_address_get_bit(address, i));
+		if (!node)
+			return NULL;
 	}
 
 	return node;
@@ -162,7 +164,8 @@ int loc_network_tree_walk(struct loc_network_tree* tree,
 static void loc_network_tree_free(struct loc_network_tree* tree) {
 	DEBUG(tree->ctx, "Releasing network tree at %p\n", tree);
 
-	loc_network_tree_node_unref(tree->root);
+	if (tree->root)
+		loc_network_tree_node_unref(tree->root);
 
 	loc_unref(tree->ctx);
 	free(tree);
@@ -524,8 +527,6 @@ static int loc_network_tree_dedup_step(struct loc_network* network, void* data)
 
 	// If network did not get removed, we push it into the stack
 	r = loc_network_list_push(ctx->stack, network);
-	if (r)
-		return r;
 
 END:
 	if (n)
-- 
2.43.0


From 49ecfc762b8de87f69d58bac3ab16081ae7f39af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:06 +0000
Subject: [PATCH 12/58] fix: do not lose names or match anything when running
 out of memory

---
 src/as-list.c      | 14 +++++---------
 src/as.c           | 17 ++++++++++++-----
 src/country-list.c | 19 +++++++------------
 src/country.c      | 13 +++++++++----
 4 files changed, 33 insertions(+), 30 deletions(-)

diff --git a/src/as-list.c b/src/as-list.c
index 50805e7..e53e2da 100644
--- a/src/as-list.c
+++ b/src/as-list.c
@@ -152,16 +152,12 @@ LOC_EXPORT int loc_as_list_contains(
 
 LOC_EXPORT int loc_as_list_contains_number(
 		struct loc_as_list* list, uint32_t number) {
-	struct loc_as* as;
-
-	int r = loc_as_new(list->ctx, &as, number);
-	if (r)
-		return -1;
-
-	r = loc_as_list_contains(list, as);
-	loc_as_unref(as);
+	for (unsigned int i = 0; i < list->size; i++) {
+		if (loc_as_get_number(list->elements[i]) == number)
+			return 1;
+	}
 
-	return r;
+	return 0;
 }
 
 static int __loc_as_cmp(const void* as1, const void* as2) {
diff --git a/src/as.c b/src/as.c
index dfc8568..00f40a3 100644
--- a/src/as.c
+++ b/src/as.c
@@ -90,13 +90,19 @@ LOC_EXPORT const char* loc_as_get_name(struct loc_as* as) {
 }
 
 LOC_EXPORT int loc_as_set_name(struct loc_as* as, const char* name) {
+	char* n = NULL;
+
+	// Copy the string
+	if (name) {
+		n = strdup(name);
+		if (!n)
+			return 1;
+	}
+
+	// Replace the previous name
 	if (as->name)
 		free(as->name);
-
-	if (name)
-		as->name = strdup(name);
-	else
-		as->name = NULL;
+	as->name = n;
 
 	return 0;
 }
@@ -123,6 +129,7 @@ int loc_as_new_from_database_v1(struct loc_ctx* ctx, struct loc_stringpool* pool
 	r = loc_as_set_name(*as, name);
 	if (r) {
 		loc_as_unref(*as);
+		*as = NULL;
 		return r;
 	}
 
diff --git a/src/country-list.c b/src/country-list.c
index 536fd9e..d892afc 100644
--- a/src/country-list.c
+++ b/src/country-list.c
@@ -150,21 +150,16 @@ LOC_EXPORT int loc_country_list_contains(
 
 LOC_EXPORT int loc_country_list_contains_code(
 		struct loc_country_list* list, const char* code) {
-	struct loc_country* country;
-
-	int r = loc_country_new(list->ctx, &country, code);
-	if (r) {
-		// Ignore invalid country codes which would never match
-		if (errno == EINVAL)
-			return 0;
+	// Ignore invalid country codes which would never match
+	if (!loc_country_code_is_valid(code))
+		return 0;
 
-		return r;
+	for (unsigned int i = 0; i < list->size; i++) {
+		if (loc_country_code_cmp(loc_country_get_code(list->elements[i]), code) == 0)
+			return 1;
 	}
 
-	r = loc_country_list_contains(list, country);
-	loc_country_unref(country);
-
-	return r;
+	return 0;
 }
 
 static int __loc_country_cmp(const void* country1, const void* country2) {
diff --git a/src/country.c b/src/country.c
index b99d0fa..b6b49d7 100644
--- a/src/country.c
+++ b/src/country.c
@@ -123,17 +123,21 @@ LOC_EXPORT const char* loc_country_get_name(struct loc_country* country) {
 }
 
 LOC_EXPORT int loc_country_set_name(struct loc_country* country, const char* name) {
-	if (country->name)
-		free(country->name);
+	char* n = NULL;
 
 	if (name) {
-		country->name = strdup(name);
+		n = strdup(name);
 
 		// Report error if we could not copy the string
-		if (!country->name)
+		if (!n)
 			return 1;
 	}
 
+	// Replace the previous name
+	if (country->name)
+		free(country->name);
+	country->name = n;
+
 	return 0;
 }
 
@@ -169,6 +173,7 @@ int loc_country_new_from_database_v1(struct loc_ctx* ctx, struct loc_stringpool*
 
 FAIL:
 	loc_country_unref(*country);
+	*country = NULL;
 	return r;
 }
 
-- 
2.43.0


From bd07b47906c6732af1382a62c7f906781feb942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:06 +0000
Subject: [PATCH 13/58] fix: release objects that could not be added to the
 writer

---
 src/writer.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/writer.c b/src/writer.c
index 0c2230f..f003820 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -245,7 +245,13 @@ LOC_EXPORT int loc_writer_add_as(struct loc_writer* writer, struct loc_as** as,
 		return r;
 
 	// Append it to the list
-	return loc_as_list_append(writer->as_list, *as);
+	r = loc_as_list_append(writer->as_list, *as);
+	if (r) {
+		loc_as_unref(*as);
+		*as = NULL;
+	}
+
+	return r;
 }
 
 LOC_EXPORT int loc_writer_add_network(struct loc_writer* writer, struct loc_network** network, const char* string) {
@@ -257,7 +263,13 @@ LOC_EXPORT int loc_writer_add_network(struct loc_writer* writer, struct loc_netw
 		return r;
 
 	// Add it to the local tree
-	return loc_network_tree_add_network(writer->networks, *network);
+	r = loc_network_tree_add_network(writer->networks, *network);
+	if (r) {
+		loc_network_unref(*network);
+		*network = NULL;
+	}
+
+	return r;
 }
 
 LOC_EXPORT int loc_writer_add_country(struct loc_writer* writer, struct loc_country** country, const char* country_code) {
@@ -267,7 +279,13 @@ LOC_EXPORT int loc_writer_add_country(struct loc_writer* writer, struct loc_coun
 		return r;
 
 	// Append it to the list
-	return loc_country_list_append(writer->country_list, *country);
+	r = loc_country_list_append(writer->country_list, *country);
+	if (r) {
+		loc_country_unref(*country);
+		*country = NULL;
+	}
+
+	return r;
 }
 
 static void make_magic(struct loc_writer* writer, struct loc_database_magic* magic,
-- 
2.43.0


From a261aa1a3668568dffddad980ba9c8ac4f7eac4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:06 +0000
Subject: [PATCH 14/58] fix: do not leak memory when generating reverse
 pointers or splitting networks

---
 src/network.c | 48 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/network.c b/src/network.c
index 1d8ddc8..9728797 100644
--- a/src/network.c
+++ b/src/network.c
@@ -357,8 +357,11 @@ LOC_EXPORT int loc_network_subnets(struct loc_network* network,
 
 	// Create the second half of the network
 	r = loc_network_new(network->ctx, subnet2, &first_address, prefix);
-	if (r)
+	if (r) {
+		loc_network_unref(*subnet1);
+		*subnet1 = NULL;
 		return r;
+	}
 
 	// Copy country code
 	const char* country_code = loc_network_get_country_code(network);
@@ -548,9 +551,15 @@ LOC_EXPORT struct loc_network_list* loc_network_exclude_list(
 			if (loc_network_overlaps(subnet, subnet_to_check)) {
 				passed = 0;
 
-				__loc_network_exclude_to_list(subnet_to_check, subnet, to_check);
+				r = __loc_network_exclude_to_list(subnet_to_check, subnet, to_check);
 
 				loc_network_unref(subnet);
+
+				if (r) {
+					loc_network_unref(subnet_to_check);
+					goto ERROR;
+				}
+
 				break;
 			}
 
@@ -572,6 +581,10 @@ LOC_EXPORT struct loc_network_list* loc_network_exclude_list(
 
 		if (passed) {
 			r = loc_network_list_push(subnets, subnet_to_check);
+			if (r) {
+				loc_network_unref(subnet_to_check);
+				goto ERROR;
+			}
 		}
 
 		loc_network_unref(subnet_to_check);
@@ -580,6 +593,12 @@ LOC_EXPORT struct loc_network_list* loc_network_exclude_list(
 	loc_network_list_unref(to_check);
 
 	return subnets;
+
+ERROR:
+	loc_network_list_unref(to_check);
+	loc_network_list_unref(subnets);
+
+	return NULL;
 }
 
 int loc_network_merge(struct loc_network** n,
@@ -692,7 +711,7 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 	r = loc_network_set_country_code(*network, country_code);
 	if (r) {
 		ERROR(ctx, "Could not set country code: %s\n", country_code);
-		return r;
+		goto ERROR;
 	}
 
 	// Import ASN
@@ -700,7 +719,7 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 	r = loc_network_set_asn(*network, asn);
 	if (r) {
 		ERROR(ctx, "Could not set ASN: %d\n", asn);
-		return r;
+		goto ERROR;
 	}
 
 	// Import flags
@@ -708,14 +727,21 @@ int loc_network_new_from_database_v1(struct loc_ctx* ctx, struct loc_network** n
 	r = loc_network_set_flag(*network, flags);
 	if (r) {
 		ERROR(ctx, "Could not set flags: %d\n", flags);
-		return r;
+		goto ERROR;
 	}
 
 	return 0;
+
+ERROR:
+	loc_network_unref(*network);
+	*network = NULL;
+
+	return r;
 }
 
 static char* loc_network_reverse_pointer6(struct loc_network* network, const char* suffix) {
 	char* buffer = NULL;
+	char* p = NULL;
 	int r;
 
 	unsigned int prefix = loc_network_prefix(network);
@@ -732,19 +758,25 @@ static char* loc_network_reverse_pointer6(struct loc_network* network, const cha
 	// Initialize the buffer
 	r = asprintf(&buffer, "%s", suffix);
 	if (r < 0)
-		goto ERROR;
+		return NULL;
 
 	for (unsigned int i = 0; i < (prefix / 4); i++) {
-		r = asprintf(&buffer, "%x.%s", loc_address_get_nibble(&network->first_address, i), buffer);
+		r = asprintf(&p, "%x.%s", loc_address_get_nibble(&network->first_address, i), buffer);
 		if (r < 0)
 			goto ERROR;
+
+		free(buffer);
+		buffer = p;
 	}
 
 	// Add the asterisk
 	if (prefix < 128) {
-		r = asprintf(&buffer, "*.%s", buffer);
+		r = asprintf(&p, "*.%s", buffer);
 		if (r < 0)
 			goto ERROR;
+
+		free(buffer);
+		buffer = p;
 	}
 
 	return buffer;
-- 
2.43.0


From 2f6e7db5ac5ca58968d15f509a60e1f3c7be6550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:06 +0000
Subject: [PATCH 15/58] fix: handle errors when opening, searching and
 flattening databases

---
 src/database.c | 65 ++++++++++++++++++++++++++------------------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/src/database.c b/src/database.c
index 8e25606..dc6bcf7 100644
--- a/src/database.c
+++ b/src/database.c
@@ -411,7 +411,7 @@ static int loc_database_clone_handle(struct loc_database* db, FILE* f) {
 
 	// Clone file descriptor
 	fd = dup(fd);
-	if (!fd) {
+	if (fd < 0) {
 		ERROR(db->ctx, "Could not duplicate file descriptor\n");
 		return 1;
 	}
@@ -420,6 +420,7 @@ static int loc_database_clone_handle(struct loc_database* db, FILE* f) {
 	db->f = fdopen(fd, "r");
 	if (!db->f) {
 		ERROR(db->ctx, "Could not re-open database file\n");
+		close(fd);
 		return 1;
 	}
 
@@ -809,6 +810,7 @@ LOC_EXPORT int loc_database_get_as(struct loc_database* db, struct loc_as** as,
 		// If it wasn't, we release the AS and
 		// adjust our search pointers
 		loc_as_unref(*as);
+		*as = NULL;
 
 		if (as_number < number) {
 			lo = i + 1;
@@ -1071,6 +1073,7 @@ LOC_EXPORT int loc_database_get_country(struct loc_database* db,
 		// If it wasn't, we release the country and
 		// adjust our search pointers
 		loc_country_unref(*country);
+		*country = NULL;
 
 		if (result > 0) {
 			lo = i + 1;
@@ -1182,7 +1185,14 @@ LOC_EXPORT struct loc_database_enumerator* loc_database_enumerator_unref(struct
 }
 
 LOC_EXPORT int loc_database_enumerator_set_string(struct loc_database_enumerator* enumerator, const char* string) {
-	enumerator->string = strdup(string);
+	char* s = strdup(string);
+	if (!s)
+		return 1;
+
+	// Replace any previous string
+	if (enumerator->string)
+		free(enumerator->string);
+	enumerator->string = s;
 
 	// Make the string lowercase
 	for (char *p = enumerator->string; *p; p++)
@@ -1465,19 +1475,15 @@ static int __loc_database_enumerator_next_network_flattened(
 	if (!enumerator->subnets) {
 		r = loc_network_list_new(enumerator->ctx, &enumerator->subnets);
 		if (r)
-			return r;
+			goto ERROR;
 	}
 
 	// Search all subnets from the database
 	while (1) {
 		// Fetch the next network in line
 		r = __loc_database_enumerator_next_network(enumerator, &subnet, 0);
-		if (r) {
-			loc_network_unref(subnet);
-			loc_network_list_clear(enumerator->subnets);
-
-			return r;
-		}
+		if (r)
+			goto ERROR;
 
 		// End if we did not receive another subnet
 		if (!subnet)
@@ -1486,27 +1492,19 @@ static int __loc_database_enumerator_next_network_flattened(
 		// Collect all subnets in a list
 		if (loc_network_is_subnet(*network, subnet)) {
 			r = loc_network_list_push(enumerator->subnets, subnet);
-			if (r) {
-				loc_network_unref(subnet);
-				loc_network_list_clear(enumerator->subnets);
-
-				return r;
-			}
-
 			loc_network_unref(subnet);
+			if (r)
+				goto ERROR;
+
 			continue;
 		}
 
 		// If this is not a subnet, we push it back onto the stack and break
 		r = loc_network_list_push(enumerator->stack, subnet);
-		if (r) {
-			loc_network_unref(subnet);
-			loc_network_list_clear(enumerator->subnets);
-
-			return r;
-		}
-
 		loc_network_unref(subnet);
+		if (r)
+			goto ERROR;
+
 		break;
 	}
 
@@ -1524,26 +1522,22 @@ static int __loc_database_enumerator_next_network_flattened(
 	// without the subnets.
 	struct loc_network_list* excluded = loc_network_exclude_list(*network, enumerator->subnets);
 	if (!excluded) {
-		loc_network_list_clear(enumerator->subnets);
-		return 1;
+		r = 1;
+		goto ERROR;
 	}
 
 	// Merge subnets onto the stack
 	r = loc_network_list_merge(enumerator->stack, enumerator->subnets);
 	if (r) {
-		loc_network_list_clear(enumerator->subnets);
 		loc_network_list_unref(excluded);
-
-		return r;
+		goto ERROR;
 	}
 
 	// Push excluded list onto the stack
 	r = loc_network_list_merge(enumerator->stack, excluded);
 	if (r) {
-		loc_network_list_clear(enumerator->subnets);
 		loc_network_list_unref(excluded);
-
-		return r;
+		goto ERROR;
 	}
 
 	loc_network_list_clear(enumerator->subnets);
@@ -1553,6 +1547,15 @@ static int __loc_database_enumerator_next_network_flattened(
 	loc_network_unref(*network);
 
 	return __loc_database_enumerator_next_network_flattened(enumerator, network);
+
+ERROR:
+	if (enumerator->subnets)
+		loc_network_list_clear(enumerator->subnets);
+
+	loc_network_unref(*network);
+	*network = NULL;
+
+	return r;
 }
 
 /*
-- 
2.43.0


From 608944503848e001bcf2602276e09ca65563f3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:10 +0000
Subject: [PATCH 16/58] fix: do not call __builtin_ctz() with zero

---
 src/libloc/address.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/libloc/address.h b/src/libloc/address.h
index 082c33f..57a7dbf 100644
--- a/src/libloc/address.h
+++ b/src/libloc/address.h
@@ -143,12 +143,11 @@ static inline unsigned int loc_address_bit_length(const struct in6_addr* address
 
 	// Walk backwards until we find the first one
 	foreach_octet_in_address_reverse(octet, address) {
-		// Count all trailing zeroes
-		int trailing_zeroes = __builtin_ctz(address->s6_addr[octet]);
+		// Count all trailing zeroes (the result is undefined for zero)
+		int trailing_zeroes = 8;
 
-		// We only have one byte
-		if (trailing_zeroes > 8)
-			trailing_zeroes = 8;
+		if (address->s6_addr[octet])
+			trailing_zeroes = __builtin_ctz(address->s6_addr[octet]);
 
 		// Remove any trailing zeroes from the total length
 		bitlength -= trailing_zeroes;
-- 
2.43.0


From 9f71abb7b712821490a43122d11ec542f9f77993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:05 +0000
Subject: [PATCH 17/58] fix: enumerate bogons precisely

Networks were created that were not aligned to the start of the gap and therefore covered
legitimate networks, gaps of only one address and networks at the end of the address space
resulted in an error, and the references to all networks were lost.
---
 src/database.c     | 30 ++++++++++++++++++++----------
 src/network-list.c | 36 +++++++++++++++++++-----------------
 2 files changed, 39 insertions(+), 27 deletions(-)

diff --git a/src/database.c b/src/database.c
index dc6bcf7..379746d 100644
--- a/src/database.c
+++ b/src/database.c
@@ -140,6 +140,10 @@ struct loc_database_enumerator {
 	// For bogons
 	struct in6_addr gap6_start;
 	struct in6_addr gap4_start;
+
+	// Set once the end of the address space has been reached
+	int gap6_end;
+	int gap4_end;
 };
 
 /*
@@ -1579,6 +1583,7 @@ static int __loc_database_enumerator_next_bogon(
 
 	struct loc_network* network = NULL;
 	struct in6_addr* gap_start = NULL;
+	int* gap_finished = NULL;
 	struct in6_addr gap_end = IN6ADDR_ANY_INIT;
 
 	while (1) {
@@ -1609,10 +1614,12 @@ static int __loc_database_enumerator_next_bogon(
 		switch (family) {
 			case AF_INET6:
 				gap_start = &enumerator->gap6_start;
+				gap_finished = &enumerator->gap6_end;
 				break;
 
 			case AF_INET:
 				gap_start = &enumerator->gap4_start;
+				gap_finished = &enumerator->gap4_end;
 				break;
 
 			default:
@@ -1625,17 +1632,17 @@ static int __loc_database_enumerator_next_bogon(
 		const struct in6_addr* last_address = loc_network_get_last_address(network);
 
 		// Skip if this network is a subnet of a former one
-		if (loc_address_cmp(gap_start, last_address) >= 0) {
+		if (*gap_finished || loc_address_cmp(gap_start, last_address) > 0) {
 			loc_network_unref(network);
 			continue;
 		}
 
-		// Search where the gap could end
-		gap_end = *first_address;
-		loc_address_decrement(&gap_end);
-
 		// There is a gap
-		if (loc_address_cmp(gap_start, &gap_end) <= 0) {
+		if (loc_address_cmp(gap_start, first_address) < 0) {
+			// Search where the gap ends
+			gap_end = *first_address;
+			loc_address_decrement(&gap_end);
+
 			r = loc_network_list_summarize(enumerator->ctx,
 				gap_start, &gap_end, &enumerator->stack);
 			if (r) {
@@ -1644,9 +1651,12 @@ static int __loc_database_enumerator_next_bogon(
 			}
 		}
 
-		// The gap now starts after this network
+		// The gap now starts after this network (unless this was the end of the address space)
 		*gap_start = *last_address;
-		loc_address_increment(gap_start);
+		if (loc_address_all_ones(gap_start))
+			*gap_finished = 1;
+		else
+			loc_address_increment(gap_start);
 
 		loc_network_unref(network);
 
@@ -1664,7 +1674,7 @@ FINISH:
 		if (r)
 			return r;
 
-		if (loc_address_cmp(&enumerator->gap6_start, &gap_end) <= 0) {
+		if (!enumerator->gap6_end) {
 			r = loc_network_list_summarize(enumerator->ctx,
 				&enumerator->gap6_start, &gap_end, &enumerator->stack);
 			if (r)
@@ -1680,7 +1690,7 @@ FINISH:
 		if (r)
 			return r;
 
-		if (loc_address_cmp(&enumerator->gap4_start, &gap_end) <= 0) {
+		if (!enumerator->gap4_end) {
 			r = loc_network_list_summarize(enumerator->ctx,
 				&enumerator->gap4_start, &gap_end, &enumerator->stack);
 			if (r)
diff --git a/src/network-list.c b/src/network-list.c
index d35bf56..d21ef67 100644
--- a/src/network-list.c
+++ b/src/network-list.c
@@ -342,9 +342,9 @@ int loc_network_list_summarize(struct loc_ctx* ctx,
 		return 1;
 	}
 
-	// Check if the last address is larger than the first address
-	if (loc_address_cmp(first, last) >= 0) {
-		ERROR(ctx, "The first address must be smaller than the last address\n");
+	// Check if the last address is not smaller than the first address
+	if (loc_address_cmp(first, last) > 0) {
+		ERROR(ctx, "The first address must not be larger than the last address\n");
 		errno = EINVAL;
 		return 1;
 	}
@@ -353,20 +353,21 @@ int loc_network_list_summarize(struct loc_ctx* ctx,
 	struct in6_addr start = *first;
 
 	while (loc_address_cmp(&start, last) <= 0) {
-		// Count how many leading bits the IP addresses have in common
-		bits = loc_address_common_bits(&start, last);
-		if (bits < 0)
-			return bits;
-
-		// If the start and end address don't have any bits in common, we try
-		// to cut the subnet into halves and try again...
-		else if (bits == 0)
-			bits = 1;
-
-		// Create a network
-		r = loc_network_new(ctx, &network, &start, bits);
-		if (r)
-			return r;
+		// The network cannot be larger than what its start address is aligned to
+		bits = loc_address_bit_length(&start);
+
+		// Make the network smaller until it does not exceed the last address
+		while (1) {
+			r = loc_network_new(ctx, &network, &start, bits);
+			if (r)
+				return r;
+
+			if (loc_address_cmp(loc_network_get_last_address(network), last) <= 0)
+				break;
+
+			loc_network_unref(network);
+			bits++;
+		}
 
 		DEBUG(ctx, "Found network %s, %s -> %s\n",
 			loc_network_str(network),
@@ -383,6 +384,7 @@ int loc_network_list_summarize(struct loc_ctx* ctx,
 
 		// The next network starts right after this one
 		start = *loc_network_get_last_address(network);
+		loc_network_unref(network);
 
 		// If we have reached the end of possible IP addresses, we stop
 		if (loc_address_all_ones(&start))
-- 
2.43.0


From 3daa642eaf768a65d673fc6f89a78b9ca1a70937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:08 +0000
Subject: [PATCH 18/58] fix: do not write beyond the end of the DNS reply

A TXT record at the very end of a reply that fills the buffer made us write the terminator after the buffer.
---
 src/resolv.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/resolv.c b/src/resolv.c
index 1c4cd75..6556fce 100644
--- a/src/resolv.c
+++ b/src/resolv.c
@@ -25,7 +25,7 @@
 #include <libloc/resolv.h>
 
 static int parse_timestamp(const unsigned char* txt, time_t* t) {
-    struct tm ts;
+    struct tm ts = { 0 };
 
     // Parse timestamp
     char* p = strptime((const char*)txt, "%a, %d %b %Y %H:%M:%S GMT", &ts);
@@ -137,10 +137,17 @@ LOC_EXPORT int loc_discover_latest_version(struct loc_ctx* ctx,
         return -1;
     }
 
-    // Get start of the string
-    unsigned char* txt = payload + 1;
+    // Copy the string (which might fill the entire packet)
+    unsigned char txt[256];
+    memcpy(txt, payload + 1, len);
     txt[len] = '\0';
 
+    // The string must not contain any NULL bytes
+    if (strlen((const char*)txt) != (size_t)len) {
+        ERROR(ctx, "Broken TXT record\n");
+        return -1;
+    }
+
     DEBUG(ctx, "Resolved to: %s\n", txt);
 
     // Parse timestamp
-- 
2.43.0


From a17b257d84e1075c99a92a4e0045d4bf884aa9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:11 +0000
Subject: [PATCH 19/58] fix: do not share the address string buffers between
 threads

Two threads could obtain the same buffer, or an index outside of the array.
---
 src/address.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/address.c b/src/address.c
index d338243..b6bd05c 100644
--- a/src/address.c
+++ b/src/address.c
@@ -27,8 +27,8 @@
 #define LOC_ADDRESS_BUFFERS				6
 #define LOC_ADDRESS_BUFFER_LENGTH		INET6_ADDRSTRLEN
 
-static char __loc_address_buffers[LOC_ADDRESS_BUFFERS][LOC_ADDRESS_BUFFER_LENGTH + 1];
-static int  __loc_address_buffer_idx = 0;
+static _Thread_local char __loc_address_buffers[LOC_ADDRESS_BUFFERS][LOC_ADDRESS_BUFFER_LENGTH + 1];
+static _Thread_local int  __loc_address_buffer_idx = 0;
 
 static const char* __loc_address6_str(const struct in6_addr* address, char* buffer, size_t length) {
 	return inet_ntop(AF_INET6, address, buffer, length);
-- 
2.43.0


From b740d94bcce3dc6a789928018d2f4c09fe94eeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:58 +0000
Subject: [PATCH 20/58] fix: try the next mirror if downloading a database has
 failed

Anything that was not an HTTP error aborted the entire update and left the temporary file behind,
a mirror that did not respond stalled it forever, and any data which was downloaded from a
bad mirror was kept at the beginning of the file so that the next mirror could not succeed either.
The file is synchronised to disk before it replaces the previous database.
---
 src/python/location/downloader.py | 120 +++++++++++++++++-------------
 1 file changed, 67 insertions(+), 53 deletions(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index 3dffbc7..cf3c184 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -17,6 +17,7 @@
 ###############################################################################
 
 import gzip
+import http.client
 import logging
 import lzma
 import os
@@ -35,6 +36,9 @@ MIRRORS = (
 	"https://location.ipfire.org/databases/",
 )
 
+# Give up on a mirror that has not been responding for this long (in seconds)
+TIMEOUT = 60
+
 # Initialise logging
 log = logging.getLogger("location.downloader")
 log.propagate = 1
@@ -123,66 +127,72 @@ class Downloader(object):
 			)
 
 		t = tempfile.NamedTemporaryFile(dir=tmpdir, delete=False)
-		with t:
-			# Try all mirrors
-			for mirror in self.mirrors:
-				# Prepare HTTP request
-				req = self._make_request(url, baseurl=mirror, headers=headers)
-
-				try:
-					with self._send_request(req) as res:
-						decompressor = lzma.LZMADecompressor()
-
-						# Read all data
-						while True:
-							buf = res.read(1024)
-							if not buf:
-								break
-
-							# Decompress data
-							buf = decompressor.decompress(buf)
-							if buf:
-								t.write(buf)
-
-					# Write all data to disk
-					t.flush()
-
-				# Catch decompression errors
-				except lzma.LZMAError as e:
-					log.warning("Could not decompress downloaded file: %s" % e)
-					continue
-
-				except urllib.error.HTTPError as e:
-					# The file on the server was too old
-					if e.code == 304:
-						log.warning("%s is serving an outdated database. Trying next mirror..." % mirror)
-
-					# Log any other HTTP errors
-					else:
-						log.warning("%s reported: %s" % (mirror, e))
-
-					# Throw away any downloaded content and try again
+		try:
+			with t:
+				# Try all mirrors
+				for mirror in self.mirrors:
+					# Throw away anything that has been downloaded from a previous mirror
+					t.seek(0)
 					t.truncate()
 
-				else:
-					# Check if the downloaded database is recent
-					if not self._check_database(t, public_key, timestamp):
-						log.warning("Downloaded database is outdated. Trying next mirror...")
+					# Prepare HTTP request
+					req = self._make_request(url, baseurl=mirror, headers=headers)
+
+					try:
+						with self._send_request(req, timeout=TIMEOUT) as res:
+							decompressor = lzma.LZMADecompressor()
 
-						# Throw away the data and try again
-						t.truncate()
+							# Read all data
+							while True:
+								buf = res.read(1024)
+								if not buf:
+									break
+
+								# Decompress data
+								buf = decompressor.decompress(buf)
+								if buf:
+									t.write(buf)
+
+						# Write all data to disk
+						t.flush()
+						os.fsync(t.fileno())
+
+					# Catch decompression errors
+					except (lzma.LZMAError, EOFError) as e:
+						log.warning("Could not decompress downloaded file: %s" % e)
 						continue
 
-					# Make the file readable for everyone
-					os.chmod(t.name, stat.S_IRUSR|stat.S_IRGRP|stat.S_IROTH)
+					except urllib.error.HTTPError as e:
+						# The file on the server was too old
+						if e.code == 304:
+							log.warning("%s is serving an outdated database. Trying next mirror..." % mirror)
 
-					# Return temporary file
-					return t
+						# Log any other HTTP errors
+						else:
+							log.warning("%s reported: %s" % (mirror, e))
 
-		# Delete the temporary file after unsuccessful downloads
-		os.unlink(t.name)
+					# Catch any other errors while talking to this mirror
+					except (OSError, http.client.HTTPException) as e:
+						log.warning("Could not download from %s: %s" % (mirror, e))
 
-		raise FileNotFoundError(url)
+					else:
+						# Check if the downloaded database is recent
+						if not self._check_database(t, public_key, timestamp):
+							log.warning("Downloaded database is outdated. Trying next mirror...")
+							continue
+
+						# Make the file readable for everyone
+						os.chmod(t.name, stat.S_IRUSR|stat.S_IRGRP|stat.S_IROTH)
+
+						# Return temporary file
+						return t
+
+			raise FileNotFoundError(url)
+
+		# Delete the temporary file after unsuccessful downloads
+		except:
+			os.unlink(t.name)
+			raise
 
 	def _check_database(self, f, public_key, timestamp=None):
 		"""
@@ -191,7 +201,11 @@ class Downloader(object):
 		"""
 		log.debug("Opening downloaded database at %s" % f.name)
 
-		db = Database(f.name)
+		try:
+			db = Database(f.name)
+		except OSError as e:
+			log.warning("Could not open downloaded database: %s" % e)
+			return False
 
 		# Database is not recent
 		if timestamp and db.created_at < timestamp:
-- 
2.43.0


From 28db84263d6702117fa7c3a72488389ee9a209a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:00 +0000
Subject: [PATCH 21/58] fix: never replace the database with an older one

If the latest version could not be fetched from DNS, any database was accepted.
---
 src/scripts/location.in | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index b34cc91..4aa7e17 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -449,6 +449,10 @@ class CLI(object):
 			log.info("Already on the latest version")
 			return
 
+		# Never accept anything that is older than what we have
+		if db:
+			t = max(t or 0, db.created_at)
+
 		# Download the database into the correct directory
 		tmpdir = os.path.dirname(ns.database)
 
-- 
2.43.0


From 7e85fdc4a88dcce7c706b22792e14ac93acfd4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:19 +0000
Subject: [PATCH 22/58] fix: replace the database atomically or not at all

shutil.move() falls back to copying the file over the existing database if it could not be renamed.
---
 src/scripts/location.in | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index 4aa7e17..5aa9bbc 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -23,7 +23,6 @@ import ipaddress
 import logging
 import os
 import re
-import shutil
 import socket
 import sys
 import time
@@ -472,8 +471,12 @@ class CLI(object):
 		if not t:
 			return 3
 
-		# Move temporary file to destination
-		shutil.move(t.name, ns.database)
+		# Atomically replace the database
+		try:
+			os.rename(t.name, ns.database)
+		except OSError:
+			os.unlink(t.name)
+			raise
 
 		return 0
 
-- 
2.43.0


From 1f4f9b8f332d1fd5ea130058fa9ae9f409e3a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:34 +0000
Subject: [PATCH 23/58] fix: export networks that only match by their flags

Networks were searched by country code and ASN only, so that A1, A2, A3
and XD did not contain any networks whose country or ASN had not been
selected as well.
---
 src/python/location/export.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/location/export.py b/src/python/location/export.py
index 1d147b1..9a80ad5 100644
--- a/src/python/location/export.py
+++ b/src/python/location/export.py
@@ -261,9 +261,15 @@ class Exporter(object):
 				country_code for country_code in countries if not country_code in FLAGS.values()
 			]
 
+			# Collect the flags of all special country codes
+			flags = 0
+			for flag in FLAGS:
+				if FLAGS[flag] in countries:
+					flags |= flag
+
 			# Get all networks that match the family
 			networks = self.db.search_networks(family=family,
-				country_codes=country_codes, asns=asns, flatten=True)
+				country_codes=country_codes, asns=asns, flags=flags, flatten=True)
 
 			# Walk through all networks
 			for network in networks:
-- 
2.43.0


From 8600e25a81eb9de1d646e87b71ae96e9cc562590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:13 +0000
Subject: [PATCH 24/58] fix: make exporting in the xt_geoip format work

The tag is assigned when the writer is being created, which is not possible
if it is a read-only property.
---
 src/python/location/export.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/location/export.py b/src/python/location/export.py
index 9a80ad5..a587ff1 100644
--- a/src/python/location/export.py
+++ b/src/python/location/export.py
@@ -218,8 +218,7 @@ class XTGeoIPOutputWriter(OutputWriter):
 	"""
 	mode = "wb"
 
-	@property
-	def tag(self):
+	def _make_tag(self):
 		return self.name
 
 	@property
-- 
2.43.0


From 5763a5fbf8b4b19841d71f330dcf55dbb5a9cad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:32 +0000
Subject: [PATCH 25/58] fix: do not crash in the Lua and Perl bindings if a
 country is unknown

---
 src/lua/database.c   | 7 +++++++
 src/perl/Location.xs | 8 ++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lua/database.c b/src/lua/database.c
index dfdb705..cc79260 100644
--- a/src/lua/database.c
+++ b/src/lua/database.c
@@ -171,6 +171,12 @@ static int Database_get_country(lua_State* L) {
 		return 1;
 	}
 
+	// Nothing found
+	if (!country) {
+		lua_pushnil(L);
+		return 1;
+	}
+
 	// Create a new country object
 	r = create_country(L, country);
 	loc_country_unref(country);
@@ -285,6 +291,7 @@ static int Database_list_networks(lua_State* L) {
 
 	// Allocate a new enumerator
 	e = lua_newuserdata(L, sizeof(*e));
+	e->e = NULL;
 	luaL_setmetatable(L, "location.DatabaseEnumerator");
 
 	// Create a new enumerator
diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index be6df14..077df7b 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -267,9 +267,9 @@ get_country_name(db, ccode)
 		RETVAL = &PL_sv_undef;
 
 		// Lookup country code
-		struct loc_country *country;
+		struct loc_country *country = NULL;
 		int err = loc_database_get_country(db, &country, ccode);
-		if(!err) {
+		if(!err && country) {
 			// Extract the name for the given country code.
 			const char* country_name = loc_country_get_name(country);
 			RETVAL = newSVpv(country_name, strlen(country_name));
@@ -289,9 +289,9 @@ get_continent_code(db, ccode)
 		RETVAL = &PL_sv_undef;
 
 		// Lookup country code
-		struct loc_country *country;
+		struct loc_country *country = NULL;
 		int err = loc_database_get_country(db, &country, ccode);
-		if(!err) {
+		if(!err && country) {
 			//Extract the continent code for the given country code.
 			const char* continent_code =  loc_country_get_continent_code(country);
 			RETVAL = newSVpv(continent_code, strlen(continent_code));
-- 
2.43.0


From 7adfc3c8a121b0c02831523cf35cf01e6944804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:08 +0000
Subject: [PATCH 26/58] fix: try the next mirror if one redirects to an invalid
 URL

urllib raises ValueError when it cannot parse the URL in a Location
header. That was not caught, so that a single mirror could stop an update
although others would have served a good database.
---
 src/python/location/downloader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index cf3c184..e0eacb1 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -172,7 +172,8 @@ class Downloader(object):
 							log.warning("%s reported: %s" % (mirror, e))
 
 					# Catch any other errors while talking to this mirror
-					except (OSError, http.client.HTTPException) as e:
+					# (urllib raises ValueError when being redirected to an invalid URL)
+					except (OSError, ValueError, http.client.HTTPException) as e:
 						log.warning("Could not download from %s: %s" % (mirror, e))
 
 					else:
-- 
2.43.0


From ab57618fac787ff1458499c32fc23427317f4fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:03 +0000
Subject: [PATCH 27/58] fix: do not trust the timestamp of a database before it
 has been verified

The creation time was formatted for a log message before the signature has
been checked. If it has been damaged so that it does not fit into what
gmtime() can handle, this raised an exception which aborted the update
instead of trying the next mirror.
---
 src/python/location/downloader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index e0eacb1..b343f20 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -212,16 +212,16 @@ class Downloader(object):
 		if timestamp and db.created_at < timestamp:
 			return False
 
-		log.info("Downloaded new database from %s" % (time.strftime(
-			"%a, %d %b %Y %H:%M:%S GMT", time.gmtime(db.created_at),
-		)))
-
 		# Verify the database
 		with open(public_key, "r") as f:
 			if not db.verify(f):
 				log.error("Could not verify database")
 				return False
 
+		log.info("Downloaded new database from %s" % (time.strftime(
+			"%a, %d %b %Y %H:%M:%S GMT", time.gmtime(db.created_at),
+		)))
+
 		return True
 
 	def retrieve(self, url, timeout=None, **kwargs):
-- 
2.43.0


From 1da5463e84dfc42ad9e6c0787b9067cb062200a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:54 +0000
Subject: [PATCH 28/58] fix: Python: handle AS numbers with 32 bits correctly

AS numbers are unsigned 32 bit integers. Those larger than 2^31 could not
be passed to the module and were formatted as negative numbers.
---
 src/python/as.c       | 28 +++++++++++++++++++++++-----
 src/python/as.h       |  3 +++
 src/python/database.c |  2 +-
 src/python/writer.c   |  2 +-
 4 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index 2f4b26f..3b45f32 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -44,10 +44,28 @@ static void AS_dealloc(ASObject* self) {
 	Py_TYPE(self)->tp_free((PyObject* )self);
 }
 
+int PyASN_Converter(PyObject* object, void* address) {
+	uint32_t* number = address;
+
+	const long n = PyLong_AsLong(object);
+	if (n == -1 && PyErr_Occurred())
+		return 0;
+
+	// AS numbers are 32 bit unsigned integers
+	if (n < 0 || n > UINT32_MAX) {
+		PyErr_Format(PyExc_ValueError, "Invalid ASN %ld", n);
+		return 0;
+	}
+
+	*number = n;
+
+	return 1;
+}
+
 static int AS_init(ASObject* self, PyObject* args, PyObject* kwargs) {
 	uint32_t number = 0;
 
-	if (!PyArg_ParseTuple(args, "i", &number))
+	if (!PyArg_ParseTuple(args, "O&", PyASN_Converter, &number))
 		return -1;
 
 	// Create the AS object
@@ -63,9 +81,9 @@ static PyObject* AS_repr(ASObject* self) {
 	const char* name = loc_as_get_name(self->as);
 
 	if (name)
-		return PyUnicode_FromFormat("<AS %d (%s)>", number, name);
+		return PyUnicode_FromFormat("<AS %u (%s)>", number, name);
 
-	return PyUnicode_FromFormat("<AS %d>", number);
+	return PyUnicode_FromFormat("<AS %u>", number);
 }
 
 static PyObject* AS_str(ASObject* self) {
@@ -73,9 +91,9 @@ static PyObject* AS_str(ASObject* self) {
 	const char* name = loc_as_get_name(self->as);
 
 	if (name)
-		return PyUnicode_FromFormat("AS%d - %s", number, name);
+		return PyUnicode_FromFormat("AS%u - %s", number, name);
 
-	return PyUnicode_FromFormat("AS%d", number);
+	return PyUnicode_FromFormat("AS%u", number);
 }
 
 static PyObject* AS_get_number(ASObject* self) {
diff --git a/src/python/as.h b/src/python/as.h
index d7fe36a..56657ee 100644
--- a/src/python/as.h
+++ b/src/python/as.h
@@ -31,4 +31,7 @@ extern PyTypeObject ASType;
 
 PyObject* new_as(PyTypeObject* type, struct loc_as* as);
 
+// Converts a Python integer into an AS number (to be used with PyArg_ParseTuple)
+int PyASN_Converter(PyObject* object, void* address);
+
 #endif /* PYTHON_LOCATION_AS_H */
diff --git a/src/python/database.c b/src/python/database.c
index f84b003..39ec5f4 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -143,7 +143,7 @@ static PyObject* Database_get_as(DatabaseObject* self, PyObject* args) {
 	struct loc_as* as = NULL;
 	uint32_t number = 0;
 
-	if (!PyArg_ParseTuple(args, "i", &number))
+	if (!PyArg_ParseTuple(args, "O&", PyASN_Converter, &number))
 		return NULL;
 
 	// Try to retrieve the AS
diff --git a/src/python/writer.c b/src/python/writer.c
index b4d8377..c087782 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -149,7 +149,7 @@ static PyObject* Writer_add_as(WriterObject* self, PyObject* args) {
 	struct loc_as* as;
 	uint32_t number = 0;
 
-	if (!PyArg_ParseTuple(args, "i", &number))
+	if (!PyArg_ParseTuple(args, "O&", PyASN_Converter, &number))
 		return NULL;
 
 	// Create AS object
-- 
2.43.0


From b602fb158cbd4305a1bb80972c2a0c219a0c963c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:54 +0000
Subject: [PATCH 29/58] fix: Python: do not crash if an AS has no name

---
 src/python/as.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/as.c b/src/python/as.c
index 3b45f32..aa2650f 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -105,6 +105,10 @@ static PyObject* AS_get_number(ASObject* self) {
 static PyObject* AS_get_name(ASObject* self) {
 	const char* name = loc_as_get_name(self->as);
 
+	// Return None if no name has been set
+	if (!name)
+		Py_RETURN_NONE;
+
 	return PyUnicode_FromString(name);
 }
 
-- 
2.43.0


From 29f8ca57de75732100b245327b18afd15afacb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:33 +0000
Subject: [PATCH 30/58] fix: report errors when an exported file cannot be
 closed

Some file systems only report that data could not be written when a file
is being closed. The files were closed by the garbage collector which
ignores any errors so that an incomplete export was reported as success.
---
 src/python/location/export.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/python/location/export.py b/src/python/location/export.py
index a587ff1..f84a9ad 100644
--- a/src/python/location/export.py
+++ b/src/python/location/export.py
@@ -51,10 +51,12 @@ class OutputWriter(object):
 		self.tag = self._make_tag()
 
 		# Open output file
+		self.close = False
 		if f:
 			self.f = f
 		elif self.directory:
 			self.f = open(self.filename, self.mode)
+			self.close = True
 		elif "b" in self.mode:
 			self.f = io.BytesIO()
 		else:
@@ -112,6 +114,10 @@ class OutputWriter(object):
 		# Flush all output
 		self.f.flush()
 
+		# Close the file (if we have opened it) to find out about any errors
+		if self.close:
+			self.f.close()
+
 	def print(self):
 		"""
 			Prints the entire output line by line
-- 
2.43.0


From 1b958872f9db94b39e7856d50e393d70e17441ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:45 +0000
Subject: [PATCH 31/58] fix: report errors when a dump cannot be written

The output file was left to the garbage collector which ignores any errors
so that "location dump FILE" was successful with an incomplete file.
---
 src/scripts/location.in | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scripts/location.in b/src/scripts/location.in
index 5aa9bbc..5d0e17d 100644
--- a/src/scripts/location.in
+++ b/src/scripts/location.in
@@ -387,6 +387,10 @@ class CLI(object):
 				if n.has_flag(flag):
 					f.write(format % (flags[flag], "yes"))
 
+		# Close the output file to find out about any errors
+		if ns.output:
+			ns.output.close()
+
 	def handle_get_as(self, db, ns):
 		"""
 			Gets information about Autonomous Systems
-- 
2.43.0


From 1a0d0555be72ed6946a3c875ce8a925b70871534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:20 +0000
Subject: [PATCH 32/58] fix: do not wait forever when a server stalls

Downloader.retrieve() did not set any timeout so that the importer was
waiting forever for a server that did not send any data any more.
---
 src/python/location/downloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index b343f20..b81e2a4 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -224,7 +224,7 @@ class Downloader(object):
 
 		return True
 
-	def retrieve(self, url, timeout=None, **kwargs):
+	def retrieve(self, url, timeout=TIMEOUT, **kwargs):
 		"""
 			This method will fetch the content at the given URL
 			and will return a file-object to a temporary file.
-- 
2.43.0


From 8498e199c8199382cca591dce236e75bf21c9f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:44 +0000
Subject: [PATCH 33/58] fix: detect when a download has been cut off

HTTPResponse.read() does not raise an error if the connection is closed
before everything has been received. Any source that is not compressed was
silently replaced by the part that has been received.
---
 src/python/location/downloader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index b81e2a4..0a5291d 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -249,6 +249,11 @@ class Downloader(object):
 
 				t.write(buf)
 
+			# Raise an error if the connection was closed too early
+			missing = getattr(f, "length", None)
+			if missing:
+				raise http.client.IncompleteRead(b"", missing)
+
 		# Rewind the temporary file
 		t.seek(0)
 
-- 
2.43.0


From 34e06b158971d500076e646f149bc227ac1f76b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:44 +0000
Subject: [PATCH 34/58] fix: importer: do not fail on large AS numbers

AS numbers have 32 bits which do not fit into a (signed) integer. One
large ASN made importing the whole source or compiling the database fail.
---
 src/scripts/location-importer.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 3e651b4..7e580bb 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -379,7 +379,7 @@ class CLI(object):
 				n
 			(
 				network               inet NOT NULL,
-				autnum                integer,
+				autnum                bigint,
 				country               text,
 				is_anonymous_proxy    boolean,
 				is_satellite_provider boolean,
@@ -914,7 +914,7 @@ class CLI(object):
 
 			# Create some temporary tables to store parsed data
 			self.db.execute("""
-				CREATE TEMPORARY TABLE _autnums(number integer NOT NULL,
+				CREATE TEMPORARY TABLE _autnums(number bigint NOT NULL,
 					organization text NOT NULL, source text NOT NULL) ON COMMIT DROP;
 				CREATE UNIQUE INDEX _autnums_number ON _autnums(number);
 
-- 
2.43.0


From 9f9baa258b139fa53a8255c850055fd7e2b1f345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:02 +0000
Subject: [PATCH 35/58] fix: importer: import all networks of ranges that are
 not a power of two

Delegations in the extended format come with the number of addresses. If
that was not a power of two or the range was not aligned, only a part of
it or too much was imported.
---
 src/scripts/location-importer.in | 49 ++++++++++++++++----------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 7e580bb..9a4ad12 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -26,7 +26,6 @@ import io
 import ipaddress
 import json
 import logging
-import math
 import re
 import socket
 import sys
@@ -1553,37 +1552,39 @@ class CLI(object):
 			log.warning("Invalid prefix: %s" % prefix)
 			return
 
-		# Fix prefix length for IPv4
-		if type == "ipv4":
-			prefix = 32 - int(math.log(prefix, 2))
-
 		# Try to parse the address
 		try:
-			network = ipaddress.ip_network("%s/%s" % (address, prefix), strict=False)
+			# For IPv4, we are given the number of addresses which might not be a single network
+			if type == "ipv4":
+				address = ipaddress.IPv4Address(address)
+				networks = list(ipaddress.summarize_address_range(address, address + prefix - 1))
+			else:
+				networks = [ipaddress.ip_network("%s/%s" % (address, prefix), strict=False)]
 		except ValueError:
 			log.warning("Invalid IP address: %s" % address)
 			return
 
-		if not self._check_parsed_network(network):
-			return
+		for network in networks:
+			if not self._check_parsed_network(network):
+				continue
 
-		self.db.execute("""
-			INSERT INTO
-				networks
-			(
-				network,
-				country,
-				original_countries,
-				source
-			)
-			VALUES
-			(
-				%s, %s, %s, %s
+			self.db.execute("""
+				INSERT INTO
+					networks
+				(
+					network,
+					country,
+					original_countries,
+					source
+				)
+				VALUES
+				(
+					%s, %s, %s, %s
+				)
+				ON CONFLICT (network)
+					DO UPDATE SET country = excluded.country
+				""", "%s" % network, country_code, [country_code], source_key,
 			)
-			ON CONFLICT (network)
-				DO UPDATE SET country = excluded.country
-			""", "%s" % network, country_code, [country_code], source_key,
-		)
 
 	async def handle_update_announcements(self, ns):
 		server = ns.server[0]
-- 
2.43.0


From b4fce6d91ef96430d0214d594f4000ab827ddd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:02 +0000
Subject: [PATCH 36/58] fix: importer: do not wait for Bird forever

If Bird closed the connection, returned an error or sent an empty line,
the importer was waiting for more data and never came back.
---
 src/scripts/location-importer.in | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 9a4ad12..3d67f0c 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -1735,14 +1735,18 @@ class CLI(object):
 
 		while True:
 			# Fill up the buffer
-			buffer += s.recv(4096)
+			data = s.recv(4096)
+			if not data:
+				raise RuntimeError("Bird has closed the connection unexpectedly")
+
+			buffer += data
 
 			while True:
 				# Search for the next newline
 				pos = buffer.find(b"\n")
 
 				# If we cannot find one, we go back and read more data
-				if pos <= 0:
+				if pos < 0:
 					break
 
 				# Cut after the newline character
@@ -1765,6 +1769,14 @@ class CLI(object):
 					elif code == 1:
 						continue
 
+					# The network does not exist (any more)
+					elif code == 8001:
+						return
+
+					# Raise an exception on any other errors
+					elif code >= 8000:
+						raise RuntimeError("Bird returned an error: %s" % line.decode().rstrip())
+
 				# Otherwise return the line
 				yield line
 
-- 
2.43.0


From 7cf3534ab8c5d6cbcc656e43d82b6272fa9d95d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:02 +0000
Subject: [PATCH 37/58] fix: importer: skip invalid networks in the AWS feed

The name of the exception was spelled wrong so that the whole feed failed.
---
 src/scripts/location-importer.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 3d67f0c..2244f93 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -2294,7 +2294,7 @@ class CLI(object):
 			# Parse the network
 			try:
 				network = ipaddress.ip_network(network)
-			except ValuleError as e:
+			except ValueError as e:
 				log.warning("%s: Unable to parse prefix %s" % (name, network))
 				continue
 
-- 
2.43.0


From ca297f48878875c2e27acf777c12249074cbe0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:41 +0000
Subject: [PATCH 38/58] fix: importer: do not let one broken geofeed affect any
 others

If a connection was reset, the server sent something that was not HTTP or
damaged gzip data, the exception cancelled all other downloads and the
error was not recorded. When failing half way through a feed, only a part
of its networks was kept.
---
 src/scripts/location-importer.in | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/scripts/location-importer.in b/src/scripts/location-importer.in
index 2244f93..c16a5e7 100644
--- a/src/scripts/location-importer.in
+++ b/src/scripts/location-importer.in
@@ -21,7 +21,6 @@ import argparse
 import asyncio
 import csv
 import functools
-import http.client
 import io
 import ipaddress
 import json
@@ -1887,14 +1886,15 @@ class CLI(object):
 						timeout=10,
 					)
 
-					# Remove any previous data
-					self.db.execute("DELETE FROM geofeed_networks \
-						WHERE geofeed_id = %s", geofeed.id)
-
 					lineno = 0
 
-					# Read the output line by line
-					with self.db.pipeline():
+					# Replace all data or none of it
+					with self.db.transaction(), self.db.pipeline():
+						# Remove any previous data
+						self.db.execute("DELETE FROM geofeed_networks \
+							WHERE geofeed_id = %s", geofeed.id)
+
+						# Read the output line by line
 						for line in f:
 							lineno += 1
 
@@ -1978,19 +1978,20 @@ class CLI(object):
 				# Catch any HTTP errors
 				except urllib.request.HTTPError as e:
 					self.db.execute("UPDATE geofeeds SET status = %s, error = %s \
-						WHERE id = %s", e.code, "%s" % e, geofeed.id)
+						WHERE id = %s", e.code, ("%s" % e).replace("\0", ""), geofeed.id)
 
 					# Remove any previous data when the feed has been deleted
 					if e.code == 404:
 						self.db.execute("DELETE FROM geofeed_networks \
 							WHERE geofeed_id = %s", geofeed.id)
 
-				# Catch any other errors and connection timeouts
-				except (http.client.InvalidURL, urllib.request.URLError, TimeoutError) as e:
+				# Catch any other errors and connection timeouts, so that
+				# one broken feed won't affect any of the others
+				except Exception as e:
 					log.debug("Could not fetch URL %s: %s" % (geofeed.url, e))
 
 					self.db.execute("UPDATE geofeeds SET status = %s, error = %s \
-						WHERE id = %s", 599, "%s" % e, geofeed.id)
+						WHERE id = %s", 599, ("%s" % e).replace("\0", ""), geofeed.id)
 
 				# Mark the geofeed as updated
 				else:
-- 
2.43.0


From c9e915e04d3fda3d613886b2162fa9152bc872de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:54 +0000
Subject: [PATCH 39/58] fix: Lua: format AS numbers of 2^31 and above correctly

lua_pushfstring() takes %d as a signed integer which turned these AS numbers
into negative ones.
---
 src/lua/as.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lua/as.c b/src/lua/as.c
index 558fcbf..c256cd3 100644
--- a/src/lua/as.c
+++ b/src/lua/as.c
@@ -15,6 +15,7 @@
 */
 
 #include <errno.h>
+#include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
 
@@ -90,12 +91,16 @@ static int AS_tostring(lua_State* L) {
 
 	uint32_t number = loc_as_get_number(self->as);
 	const char* name = loc_as_get_name(self->as);
+	char buffer[16];
+
+	// Format the number (lua_pushfstring() can only handle signed integers)
+	snprintf(buffer, sizeof(buffer), "AS%u", number);
 
 	// Return string
 	if (name)
-		lua_pushfstring(L, "AS%d - %s", number, name);
+		lua_pushfstring(L, "%s - %s", buffer, name);
 	else
-		lua_pushfstring(L, "AS%d", number);
+		lua_pushstring(L, buffer);
 
 	return 1;
 }
-- 
2.43.0


From beb3f592c33fa0897e26b974e2b603137bdcb92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:54 +0000
Subject: [PATCH 40/58] fix: Perl: check for all errors when creating a context

loc_new() returns a positive value when it fails, which let init() carry on
without any context and crash.
---
 src/perl/Location.xs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index 077df7b..880709d 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -22,7 +22,7 @@ init(file)
 
 		// Initialise location context
 		int err = loc_new(&ctx);
-		if (err < 0)
+		if (err)
 			croak("Could not initialize libloc context: %d\n", err);
 
 		// Open the database file for reading
-- 
2.43.0


From 5718c1c529f63e4ef3aae1e484bd74221d374368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:54 +0000
Subject: [PATCH 41/58] fix: Perl: release the enumerator when the countries
 could not be listed

It holds a reference to the database which was never released, either.
---
 src/perl/Location.xs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index 880709d..84aaf17 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -135,6 +135,8 @@ database_countries(db)
 		struct loc_country* country;
 		err = loc_database_enumerator_next_country(enumerator, &country);
 		if (err) {
+			loc_database_enumerator_unref(enumerator);
+
 			croak("Could not enumerate next country\n");
 		}
 
@@ -151,6 +153,8 @@ database_countries(db)
 			// Enumerate next item.
 			err = loc_database_enumerator_next_country(enumerator, &country);
 			if (err) {
+				loc_database_enumerator_unref(enumerator);
+
 				croak("Could not enumerate next country\n");
 			}
 		}
-- 
2.43.0


From c0392472004864d2e02ed0de23e301b51d4d4360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:54 +0000
Subject: [PATCH 42/58] fix: Perl: do not crash if a name or continent is not
 known

---
 src/perl/Location.xs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index 84aaf17..0fb92fb 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -276,7 +276,8 @@ get_country_name(db, ccode)
 		if(!err && country) {
 			// Extract the name for the given country code.
 			const char* country_name = loc_country_get_name(country);
-			RETVAL = newSVpv(country_name, strlen(country_name));
+			if (country_name)
+				RETVAL = newSVpv(country_name, strlen(country_name));
 
 			loc_country_unref(country);
 		}
@@ -298,7 +299,8 @@ get_continent_code(db, ccode)
 		if(!err && country) {
 			//Extract the continent code for the given country code.
 			const char* continent_code =  loc_country_get_continent_code(country);
-			RETVAL = newSVpv(continent_code, strlen(continent_code));
+			if (continent_code)
+				RETVAL = newSVpv(continent_code, strlen(continent_code));
 
 			loc_country_unref(country);
 		}
@@ -320,8 +322,8 @@ get_as_name(db, as_number)
 		if(!err) {
 			// Get the name of the given AS number.
 			const char* as_name = loc_as_get_name(as);
-
-			RETVAL = newSVpv(as_name, strlen(as_name));
+			if (as_name)
+				RETVAL = newSVpv(as_name, strlen(as_name));
 
 			loc_as_unref(as);
 		}
-- 
2.43.0


From 636b9c6724df96ef6f8972f39bbbf86bd38f28af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:54 +0000
Subject: [PATCH 43/58] fix: bindings: do not report an AS or country as
 unknown after an error

loc_database_get_as() returns the same value if there is no such AS and if it
could not be read. Tell these apart by errno and have the bindings raise an
error instead of claiming that nothing was found.
---
 src/database.c        |  1 +
 src/lua/database.c    | 22 ++++++++++++++++++----
 src/perl/Location.xs  | 12 ++++++++++++
 src/python/database.c |  3 ++-
 4 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/database.c b/src/database.c
index 379746d..f5fb09c 100644
--- a/src/database.c
+++ b/src/database.c
@@ -825,6 +825,7 @@ LOC_EXPORT int loc_database_get_as(struct loc_database* db, struct loc_as** as,
 	// Nothing found
 	*as = NULL;
 
+	errno = ENOENT;
 	return 1;
 }
 
diff --git a/src/lua/database.c b/src/lua/database.c
index cc79260..b1609cd 100644
--- a/src/lua/database.c
+++ b/src/lua/database.c
@@ -144,8 +144,15 @@ static int Database_get_as(lua_State* L) {
 	// Fetch the AS
 	r = loc_database_get_as(self->db, &as, asn);
 	if (r) {
-		lua_pushnil(L);
-		return 1;
+		switch (errno) {
+			// Nothing found
+			case ENOENT:
+				lua_pushnil(L);
+				return 1;
+
+			default:
+				return luaL_error(L, "Could not fetch AS: %s\n", strerror(errno));
+		}
 	}
 
 	// Create a new AS object
@@ -167,8 +174,15 @@ static int Database_get_country(lua_State* L) {
 	// Fetch the country
 	r = loc_database_get_country(self->db, &country, code);
 	if (r) {
-		lua_pushnil(L);
-		return 1;
+		switch (errno) {
+			// There is no country with an invalid code
+			case EINVAL:
+				lua_pushnil(L);
+				return 1;
+
+			default:
+				return luaL_error(L, "Could not fetch country %s: %s\n", code, strerror(errno));
+		}
 	}
 
 	// Nothing found
diff --git a/src/perl/Location.xs b/src/perl/Location.xs
index 0fb92fb..7ba9f2d 100644
--- a/src/perl/Location.xs
+++ b/src/perl/Location.xs
@@ -273,6 +273,10 @@ get_country_name(db, ccode)
 		// Lookup country code
 		struct loc_country *country = NULL;
 		int err = loc_database_get_country(db, &country, ccode);
+		if (err && errno != EINVAL) {
+			croak("Error fetching a country from the database\n");
+		}
+
 		if(!err && country) {
 			// Extract the name for the given country code.
 			const char* country_name = loc_country_get_name(country);
@@ -296,6 +300,10 @@ get_continent_code(db, ccode)
 		// Lookup country code
 		struct loc_country *country = NULL;
 		int err = loc_database_get_country(db, &country, ccode);
+		if (err && errno != EINVAL) {
+			croak("Error fetching a country from the database\n");
+		}
+
 		if(!err && country) {
 			//Extract the continent code for the given country code.
 			const char* continent_code =  loc_country_get_continent_code(country);
@@ -319,6 +327,10 @@ get_as_name(db, as_number)
 		// Lookup AS.
 		struct loc_as *as;
 		int err = loc_database_get_as(db, &as, as_number);
+		if (err && errno != ENOENT) {
+			croak("Error fetching an AS from the database\n");
+		}
+
 		if(!err) {
 			// Get the name of the given AS number.
 			const char* as_name = loc_as_get_name(as);
diff --git a/src/python/database.c b/src/python/database.c
index 39ec5f4..1e096f2 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -157,11 +157,12 @@ static PyObject* Database_get_as(DatabaseObject* self, PyObject* args) {
 		return obj;
 
 	// Nothing found
-	} else if (r == 1) {
+	} else if (errno == ENOENT) {
 		Py_RETURN_NONE;
 	}
 
 	// Unexpected error
+	PyErr_SetFromErrno(PyExc_OSError);
 	return NULL;
 }
 
-- 
2.43.0


From ff31a6d6d9fd34df7fcaa50293251dd8ba517e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:54 +0000
Subject: [PATCH 44/58] fix: Python: close the files which have been opened for
 keys

Every verification and every writer with a key left an open FILE behind. The
descriptor belongs to the Python object so that a copy is opened instead.
---
 src/python/database.c | 12 +++++++-
 src/python/writer.c   | 66 ++++++++++++++++++++++++++++---------------
 2 files changed, 55 insertions(+), 23 deletions(-)

diff --git a/src/python/database.c b/src/python/database.c
index 1e096f2..9ec14ed 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -16,6 +16,8 @@
 
 #include <Python.h>
 
+#include <unistd.h>
+
 #include <libloc/libloc.h>
 #include <libloc/as.h>
 #include <libloc/as-list.h>
@@ -94,14 +96,22 @@ static PyObject* Database_verify(DatabaseObject* self, PyObject* args) {
 	if (fd < 0)
 		return NULL;
 
-	// Re-open file descriptor
+	// Re-open a copy of the file descriptor
+	fd = dup(fd);
+	if (fd < 0) {
+		PyErr_SetFromErrno(PyExc_IOError);
+		return NULL;
+	}
+
 	f = fdopen(fd, "r");
 	if (!f) {
 		PyErr_SetFromErrno(PyExc_IOError);
+		close(fd);
 		return NULL;
 	}
 
 	int r = loc_database_verify(self->db, f);
+	fclose(f);
 
 	if (r == 0)
 		Py_RETURN_TRUE;
diff --git a/src/python/writer.c b/src/python/writer.c
index c087782..8a929cd 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -16,6 +16,8 @@
 
 #include <Python.h>
 
+#include <unistd.h>
+
 #include <libloc/libloc.h>
 #include <libloc/writer.h>
 
@@ -38,12 +40,38 @@ static void Writer_dealloc(WriterObject* self) {
 	Py_TYPE(self)->tp_free((PyObject* )self);
 }
 
+// Opens a copy of the file descriptor of the given Python file object
+static FILE* Writer_open_key(PyObject* key) {
+	FILE* f = NULL;
+
+	int fd = PyObject_AsFileDescriptor(key);
+	if (fd < 0)
+		return NULL;
+
+	fd = dup(fd);
+	if (fd < 0)
+		goto ERROR;
+
+	f = fdopen(fd, "r");
+	if (!f)
+		goto ERROR;
+
+	return f;
+
+ERROR:
+	PyErr_SetFromErrno(PyExc_IOError);
+	if (fd >= 0)
+		close(fd);
+
+	return NULL;
+}
+
 static int Writer_init(WriterObject* self, PyObject* args, PyObject* kwargs) {
 	PyObject* private_key1 = NULL;
 	PyObject* private_key2 = NULL;
 	FILE* f1 = NULL;
 	FILE* f2 = NULL;
-	int fd;
+	int r = -1;
 
 	// Parse arguments
 	if (!PyArg_ParseTuple(args, "|OO", &private_key1, &private_key2))
@@ -62,33 +90,27 @@ static int Writer_init(WriterObject* self, PyObject* args, PyObject* kwargs) {
 
 	// Convert into FILE*
 	if (private_key1) {
-		fd = PyObject_AsFileDescriptor(private_key1);
-		if (fd < 0)
-			return -1;
-
-		// Re-open file descriptor
-		f1 = fdopen(fd, "r");
-		if (!f1) {
-			PyErr_SetFromErrno(PyExc_IOError);
-			return -1;
-		}
+		f1 = Writer_open_key(private_key1);
+		if (!f1)
+			goto END;
 	}
 
 	if (private_key2) {
-		fd = PyObject_AsFileDescriptor(private_key2);
-		if (fd < 0)
-			return -1;
-
-		// Re-open file descriptor
-		f2 = fdopen(fd, "r");
-		if (!f2) {
-			PyErr_SetFromErrno(PyExc_IOError);
-			return -1;
-		}
+		f2 = Writer_open_key(private_key2);
+		if (!f2)
+			goto END;
 	}
 
 	// Create the writer object
-	return loc_writer_new(loc_ctx, &self->writer, f1, f2);
+	r = loc_writer_new(loc_ctx, &self->writer, f1, f2);
+
+END:
+	if (f1)
+		fclose(f1);
+	if (f2)
+		fclose(f2);
+
+	return r;
 }
 
 static PyObject* Writer_get_vendor(WriterObject* self) {
-- 
2.43.0


From eb5a698550ba73ad1350447880a61360c33852ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:49 +0000
Subject: [PATCH 45/58] fix: Python: raise an error if a network could not be
 excluded

This crashed when it tried to release a list that does not exist.
---
 src/python/network.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/network.c b/src/python/network.c
index 4bae918..c45da9a 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -184,6 +184,10 @@ static PyObject* Network_exclude(NetworkObject* self, PyObject* args) {
 		return NULL;
 
 	struct loc_network_list* list = loc_network_exclude(self->network, other->network);
+	if (!list) {
+		PyErr_SetFromErrno(PyExc_OSError);
+		return NULL;
+	}
 
 	// Convert to Python objects
 	PyObject* obj = PyList_FromNetworkList(list);
-- 
2.43.0


From 5bd2c81a0d95619beef82d8e61f657200fc805d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:49 +0000
Subject: [PATCH 46/58] fix: Python: raise ValueError when an invalid address
 is looked up

It was replaced by an OSError which nobody expects.
---
 src/python/database.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/database.c b/src/python/database.c
index 9ec14ed..8bfc70c 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -224,9 +224,11 @@ static PyObject* Database_lookup(DatabaseObject* self, PyObject* args) {
 		switch (errno) {
 			case EINVAL:
 				PyErr_Format(PyExc_ValueError, "Invalid IP address: %s", address);
+				break;
 
 			default:
 				PyErr_SetFromErrno(PyExc_OSError);
+				break;
 		}
 
 		return NULL;
-- 
2.43.0


From a71b5411ab3fd27aadac81690f08f1cc755e45d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:49 +0000
Subject: [PATCH 47/58] fix: Python: report errors of the writer

A writer which could not be created was returned as if nothing had happened
and crashed as soon as it was used, and so did adding an invalid country.
Other errors were not reported with an exception.
---
 src/python/writer.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/python/writer.c b/src/python/writer.c
index 8a929cd..a1ede3a 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -103,6 +103,10 @@ static int Writer_init(WriterObject* self, PyObject* args, PyObject* kwargs) {
 
 	// Create the writer object
 	r = loc_writer_new(loc_ctx, &self->writer, f1, f2);
+	if (r) {
+		PyErr_SetFromErrno(PyExc_OSError);
+		r = -1;
+	}
 
 END:
 	if (f1)
@@ -176,8 +180,10 @@ static PyObject* Writer_add_as(WriterObject* self, PyObject* args) {
 
 	// Create AS object
 	int r = loc_writer_add_as(self->writer, &as, number);
-	if (r)
+	if (r) {
+		PyErr_SetFromErrno(PyExc_OSError);
 		return NULL;
+	}
 
 	PyObject* obj = new_as(&ASType, as);
 	loc_as_unref(as);
@@ -195,14 +201,17 @@ static PyObject* Writer_add_country(WriterObject* self, PyObject* args) {
 	// Create country object
 	int r = loc_writer_add_country(self->writer, &country, country_code);
 	if (r) {
-		switch (r) {
-			case -EINVAL:
-				PyErr_SetString(PyExc_ValueError, "Invalid network");
+		switch (errno) {
+			case EINVAL:
+				PyErr_SetString(PyExc_ValueError, "Invalid country code");
 				break;
 
 			default:
-				return NULL;
+				PyErr_SetFromErrno(PyExc_OSError);
+				break;
 		}
+
+		return NULL;
 	}
 
 	PyObject* obj = new_country(&CountryType, country);
@@ -229,6 +238,10 @@ static PyObject* Writer_add_network(WriterObject* self, PyObject* args) {
 			case -EBUSY:
 				PyErr_SetString(PyExc_IndexError, "A network already exists here");
 				break;
+
+			default:
+				PyErr_SetFromErrno((errno == EINVAL) ? PyExc_ValueError : PyExc_OSError);
+				break;
 		}
 
 		return NULL;
-- 
2.43.0


From 54dc7b43d71fdff7db772b875a6b58d9c7a320f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:49 +0000
Subject: [PATCH 48/58] fix: Python: release the enumerator if a search could
 not be started

It keeps the database open. This also released an AS that was never created.
---
 src/python/database.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/python/database.c b/src/python/database.c
index 8bfc70c..49b36ef 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -336,7 +336,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 		r = loc_country_list_new(loc_ctx, &countries);
 		if (r) {
 			PyErr_SetString(PyExc_SystemError, "Could not create country list");
-			return NULL;
+			goto ERROR;
 		}
 
 		for (int i = 0; i < PyList_Size(country_codes); i++) {
@@ -345,7 +345,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			if (!PyUnicode_Check(item)) {
 				PyErr_SetString(PyExc_TypeError, "Country codes must be strings");
 				loc_country_list_unref(countries);
-				return NULL;
+				goto ERROR;
 			}
 
 			const char* country_code = PyUnicode_AsUTF8(item);
@@ -360,7 +360,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				}
 
 				loc_country_list_unref(countries);
-				return NULL;
+				goto ERROR;
 			}
 
 			// Append it to the list
@@ -370,7 +370,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 				loc_country_list_unref(countries);
 				loc_country_unref(country);
-				return NULL;
+				goto ERROR;
 			}
 
 			loc_country_unref(country);
@@ -381,7 +381,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			PyErr_SetFromErrno(PyExc_SystemError);
 
 			loc_country_list_unref(countries);
-			return NULL;
+			goto ERROR;
 		}
 
 		loc_country_list_unref(countries);
@@ -393,7 +393,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 		r = loc_as_list_new(loc_ctx, &asns);
 		if (r) {
 			PyErr_SetFromErrno(PyExc_OSError);
-			return NULL;
+			goto ERROR;
 		}
 
 		for (int i = 0; i < PyList_Size(asn_list); i++) {
@@ -403,7 +403,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				PyErr_SetString(PyExc_TypeError, "ASNs must be numbers");
 
 				loc_as_list_unref(asns);
-				return NULL;
+				goto ERROR;
 			}
 
 			unsigned long number = PyLong_AsLong(item);
@@ -414,8 +414,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				PyErr_SetFromErrno(PyExc_OSError);
 
 				loc_as_list_unref(asns);
-				loc_as_unref(as);
-				return NULL;
+				goto ERROR;
 			}
 
 			r = loc_as_list_append(asns, as);
@@ -424,7 +423,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 				loc_as_list_unref(asns);
 				loc_as_unref(as);
-				return NULL;
+				goto ERROR;
 			}
 
 			loc_as_unref(as);
@@ -435,7 +434,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			PyErr_SetFromErrno(PyExc_OSError);
 
 			loc_as_list_unref(asns);
-			return NULL;
+			goto ERROR;
 		}
 
 		loc_as_list_unref(asns);
@@ -447,7 +446,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 		if (r) {
 			PyErr_SetFromErrno(PyExc_OSError);
-			return NULL;
+			goto ERROR;
 		}
 	}
 
@@ -457,7 +456,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 
 		if (r) {
 			PyErr_SetFromErrno(PyExc_OSError);
-			return NULL;
+			goto ERROR;
 		}
 	}
 
@@ -465,6 +464,11 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 	loc_database_enumerator_unref(enumerator);
 
 	return obj;
+
+ERROR:
+	loc_database_enumerator_unref(enumerator);
+
+	return NULL;
 }
 
 static PyObject* Database_countries(DatabaseObject* self) {
-- 
2.43.0


From 3f629e0c4874e4f9dadb1deb3d7bdecda6c7da78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:51 +0000
Subject: [PATCH 49/58] fix: Python: raise an exception for invalid country
 codes

They only caused a SystemError because no exception had been set.
---
 src/python/as.c       |  4 +++-
 src/python/country.c  | 13 ++++++++++++-
 src/python/database.c |  2 +-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index aa2650f..d389890 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -70,8 +70,10 @@ static int AS_init(ASObject* self, PyObject* args, PyObject* kwargs) {
 
 	// Create the AS object
 	int r = loc_as_new(loc_ctx, &self->as, number);
-	if (r)
+	if (r) {
+		PyErr_SetFromErrno(PyExc_OSError);
 		return -1;
+	}
 
 	return 0;
 }
diff --git a/src/python/country.c b/src/python/country.c
index 7114846..b8e1821 100644
--- a/src/python/country.c
+++ b/src/python/country.c
@@ -52,8 +52,19 @@ static int Country_init(CountryObject* self, PyObject* args, PyObject* kwargs) {
 
 	// Create the country object
 	int r = loc_country_new(loc_ctx, &self->country, country_code);
-	if (r)
+	if (r) {
+		switch (errno) {
+			case EINVAL:
+				PyErr_Format(PyExc_ValueError, "Invalid country code: %s", country_code);
+				break;
+
+			default:
+				PyErr_SetFromErrno(PyExc_OSError);
+				break;
+		}
+
 		return -1;
+	}
 
 	return 0;
 }
diff --git a/src/python/database.c b/src/python/database.c
index 49b36ef..535cf64 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -353,7 +353,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			struct loc_country* country;
 			r = loc_country_new(loc_ctx, &country, country_code);
 			if (r) {
-				if (r == -EINVAL) {
+				if (errno == EINVAL) {
 					PyErr_Format(PyExc_ValueError, "Invalid country code: %s", country_code);
 				} else {
 					PyErr_SetString(PyExc_SystemError, "Could not create country");
-- 
2.43.0


From 17eaafaab9cf630cd44be335d7db4eac601beff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:51 +0000
Subject: [PATCH 50/58] fix: Python: check the AS numbers that are being
 searched for

Numbers with more than 32 bits were cut off which returned the networks of
some other AS.
---
 src/python/database.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/python/database.c b/src/python/database.c
index 535cf64..f0002ab 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -406,7 +406,12 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				goto ERROR;
 			}
 
-			unsigned long number = PyLong_AsLong(item);
+			uint32_t number = 0;
+
+			if (!PyASN_Converter(item, &number)) {
+				loc_as_list_unref(asns);
+				goto ERROR;
+			}
 
 			struct loc_as* as;
 			r = loc_as_new(loc_ctx, &as, number);
-- 
2.43.0


From 3d0c001cf9e51bbfcbaebfa8f603efdac5c14864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:51 +0000
Subject: [PATCH 51/58] fix: Python: check the values that attributes are being
 set to

Values of any other type were accepted and left an exception behind that
surfaced somewhere else. Deleting an attribute crashed.
---
 src/python/as.c             |  4 +++-
 src/python/country.c        |  8 ++++++--
 src/python/locationmodule.h | 13 +++++++++++++
 src/python/network.c        | 11 ++++++++++-
 src/python/writer.c         | 12 +++++++++---
 5 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index d389890..9315dd3 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -115,7 +115,9 @@ static PyObject* AS_get_name(ASObject* self) {
 }
 
 static int AS_set_name(ASObject* self, PyObject* value) {
-	const char* name = PyUnicode_AsUTF8(value);
+	const char* name = PyAttribute_AsString(value);
+	if (!name)
+		return -1;
 
 	int r = loc_as_set_name(self->as, name);
 	if (r) {
diff --git a/src/python/country.c b/src/python/country.c
index b8e1821..3d3544b 100644
--- a/src/python/country.c
+++ b/src/python/country.c
@@ -100,7 +100,9 @@ static PyObject* Country_get_name(CountryObject* self) {
 }
 
 static int Country_set_name(CountryObject* self, PyObject* value) {
-	const char* name = PyUnicode_AsUTF8(value);
+	const char* name = PyAttribute_AsString(value);
+	if (!name)
+		return -1;
 
 	int r = loc_country_set_name(self->country, name);
 	if (r) {
@@ -121,7 +123,9 @@ static PyObject* Country_get_continent_code(CountryObject* self) {
 }
 
 static int Country_set_continent_code(CountryObject* self, PyObject* value) {
-	const char* code = PyUnicode_AsUTF8(value);
+	const char* code = PyAttribute_AsString(value);
+	if (!code)
+		return -1;
 
 	int r = loc_country_set_continent_code(self->country, code);
 	if (r) {
diff --git a/src/python/locationmodule.h b/src/python/locationmodule.h
index e267986..0d4e7f4 100644
--- a/src/python/locationmodule.h
+++ b/src/python/locationmodule.h
@@ -21,4 +21,17 @@
 
 extern struct loc_ctx* loc_ctx;
 
+/*
+	Returns the string that an attribute is being set to (which is NULL if the
+	attribute is being deleted), or NULL with an exception set.
+*/
+static inline const char* PyAttribute_AsString(PyObject* value) {
+	if (!value) {
+		PyErr_SetString(PyExc_AttributeError, "Attributes cannot be deleted");
+		return NULL;
+	}
+
+	return PyUnicode_AsUTF8(value);
+}
+
 #endif /* PYTHON_LOCATION_MODULE_H */
diff --git a/src/python/network.c b/src/python/network.c
index c45da9a..4d40d11 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -102,7 +102,9 @@ static PyObject* Network_get_country_code(NetworkObject* self) {
 }
 
 static int Network_set_country_code(NetworkObject* self, PyObject* value) {
-	const char* country_code = PyUnicode_AsUTF8(value);
+	const char* country_code = PyAttribute_AsString(value);
+	if (!country_code)
+		return -1;
 
 	int r = loc_network_set_country_code(self->network, country_code);
 	if (r) {
@@ -126,7 +128,14 @@ static PyObject* Network_get_asn(NetworkObject* self) {
 }
 
 static int Network_set_asn(NetworkObject* self, PyObject* value) {
+	if (!value) {
+		PyErr_SetString(PyExc_AttributeError, "Attributes cannot be deleted");
+		return -1;
+	}
+
 	long int asn = PyLong_AsLong(value);
+	if (asn == -1 && PyErr_Occurred())
+		return -1;
 
 	// Check if the ASN is within the valid range
 	if (asn <= 0) {
diff --git a/src/python/writer.c b/src/python/writer.c
index a1ede3a..7c71d20 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -124,7 +124,9 @@ static PyObject* Writer_get_vendor(WriterObject* self) {
 }
 
 static int Writer_set_vendor(WriterObject* self, PyObject* value) {
-	const char* vendor = PyUnicode_AsUTF8(value);
+	const char* vendor = PyAttribute_AsString(value);
+	if (!vendor)
+		return -1;
 
 	int r = loc_writer_set_vendor(self->writer, vendor);
 	if (r) {
@@ -142,7 +144,9 @@ static PyObject* Writer_get_description(WriterObject* self) {
 }
 
 static int Writer_set_description(WriterObject* self, PyObject* value) {
-	const char* description = PyUnicode_AsUTF8(value);
+	const char* description = PyAttribute_AsString(value);
+	if (!description)
+		return -1;
 
 	int r = loc_writer_set_description(self->writer, description);
 	if (r) {
@@ -160,7 +164,9 @@ static PyObject* Writer_get_license(WriterObject* self) {
 }
 
 static int Writer_set_license(WriterObject* self, PyObject* value) {
-	const char* license = PyUnicode_AsUTF8(value);
+	const char* license = PyAttribute_AsString(value);
+	if (!license)
+		return -1;
 
 	int r = loc_writer_set_license(self->writer, license);
 	if (r) {
-- 
2.43.0


From b7a74629a0cd7c82f7bf0ab289daf4dd66d0b721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:17 +0000
Subject: [PATCH 52/58] fix: Python: check if the string to search for could be
 set

Otherwise all ASes are returned.
---
 src/python/database.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/python/database.c b/src/python/database.c
index f0002ab..ae3247c 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -293,7 +293,12 @@ static PyObject* Database_search_as(DatabaseObject* self, PyObject* args) {
 	}
 
 	// Search string we are searching for
-	loc_database_enumerator_set_string(enumerator, string);
+	r = loc_database_enumerator_set_string(enumerator, string);
+	if (r) {
+		PyErr_SetFromErrno(PyExc_SystemError);
+		loc_database_enumerator_unref(enumerator);
+		return NULL;
+	}
 
 	PyObject* obj = new_database_enumerator(&DatabaseEnumeratorType, enumerator);
 	loc_database_enumerator_unref(enumerator);
-- 
2.43.0


From 4c4ebb4eae3fbfc23f6fc5411333d604628561c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:02 +0000
Subject: [PATCH 53/58] fix: Python: make all comparisons between objects agree

Two ASes, countries or networks that were equal were also not equal, because
only == and < have been implemented, and Python falls back to comparing the
identity of the objects for !=. <=, > and >= raised a TypeError.
---
 src/python/as.c      | 19 +------------------
 src/python/country.c | 19 +------------------
 src/python/network.c | 19 +------------------
 3 files changed, 3 insertions(+), 54 deletions(-)

diff --git a/src/python/as.c b/src/python/as.c
index 9315dd3..264f443 100644
--- a/src/python/as.c
+++ b/src/python/as.c
@@ -139,24 +139,7 @@ static PyObject* AS_richcompare(ASObject* self, PyObject* other, int op) {
 
 	r = loc_as_cmp(self->as, o->as);
 
-	switch (op) {
-		case Py_EQ:
-			if (r == 0)
-				Py_RETURN_TRUE;
-
-			Py_RETURN_FALSE;
-
-		case Py_LT:
-			if (r < 0)
-				Py_RETURN_TRUE;
-
-			Py_RETURN_FALSE;
-
-		default:
-			break;
-	}
-
-	Py_RETURN_NOTIMPLEMENTED;
+	Py_RETURN_RICHCOMPARE(r, 0, op);
 }
 
 static Py_hash_t AS_hash(ASObject* self) {
diff --git a/src/python/country.c b/src/python/country.c
index 3d3544b..0c9174f 100644
--- a/src/python/country.c
+++ b/src/python/country.c
@@ -147,24 +147,7 @@ static PyObject* Country_richcompare(CountryObject* self, PyObject* other, int o
 
 	r = loc_country_cmp(self->country, o->country);
 
-	switch (op) {
-		case Py_EQ:
-			if (r == 0)
-				Py_RETURN_TRUE;
-
-			Py_RETURN_FALSE;
-
-		case Py_LT:
-			if (r < 0)
-				Py_RETURN_TRUE;
-
-			Py_RETURN_FALSE;
-
-		default:
-			break;
-	}
-
-	Py_RETURN_NOTIMPLEMENTED;
+	Py_RETURN_RICHCOMPARE(r, 0, op);
 }
 
 static Py_hash_t Country_hash(CountryObject* self) {
diff --git a/src/python/network.c b/src/python/network.c
index 4d40d11..ed8a81c 100644
--- a/src/python/network.c
+++ b/src/python/network.c
@@ -272,24 +272,7 @@ static PyObject* Network_richcompare(NetworkObject* self, PyObject* other, int o
 
 	r = loc_network_cmp(self->network, o->network);
 
-	switch (op) {
-		case Py_EQ:
-			if (r == 0)
-				Py_RETURN_TRUE;
-
-			Py_RETURN_FALSE;
-
-		case Py_LT:
-			if (r < 0)
-				Py_RETURN_TRUE;
-
-			Py_RETURN_FALSE;
-
-		default:
-			break;
-	}
-
-	Py_RETURN_NOTIMPLEMENTED;
+	Py_RETURN_RICHCOMPARE(r, 0, op);
 }
 
 static PyObject* Network_reverse_pointer(NetworkObject* self, PyObject* args, PyObject* kwargs) {
-- 
2.43.0


From c475ecdfdd488a84b988419cbb097f4f14d55795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:14 +0000
Subject: [PATCH 54/58] fix: Python: do not drop a reference to None that is
 borrowed

PyArg_ParseTuple() returns borrowed references. Each writer that has been
created without a key took one reference of None away, until the interpreter
aborts (before Python 3.12, where None has become immortal).
---
 src/python/writer.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/python/writer.c b/src/python/writer.c
index 7c71d20..8d04e3d 100644
--- a/src/python/writer.c
+++ b/src/python/writer.c
@@ -78,15 +78,11 @@ static int Writer_init(WriterObject* self, PyObject* args, PyObject* kwargs) {
 		return -1;
 
 	// Ignore None
-	if (private_key1 == Py_None) {
-		Py_DECREF(private_key1);
+	if (private_key1 == Py_None)
 		private_key1 = NULL;
-	}
 
-	if (private_key2 == Py_None) {
-		Py_DECREF(private_key2);
+	if (private_key2 == Py_None)
 		private_key2 = NULL;
-	}
 
 	// Convert into FILE*
 	if (private_key1) {
-- 
2.43.0


From cdb677ca1a87bdd8457e4a32a6ab3d44b40459b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:53 +0000
Subject: [PATCH 55/58] fix: Python: check if a country code to search for
 could be encoded

search_networks() crashed if a string contained a surrogate.
---
 src/python/database.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/database.c b/src/python/database.c
index ae3247c..9f3c79a 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -354,6 +354,10 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 			}
 
 			const char* country_code = PyUnicode_AsUTF8(item);
+			if (!country_code) {
+				loc_country_list_unref(countries);
+				goto ERROR;
+			}
 
 			struct loc_country* country;
 			r = loc_country_new(loc_ctx, &country, country_code);
-- 
2.43.0


From 3a2819695ba5b5eb762020e786aa2035bd1d5707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:08 +0000
Subject: [PATCH 56/58] fix: Python: do not cut off strings that contain null
 characters

They have silently been shortened when an attribute was being set, and
search_networks() accepted country codes followed by anything else.
---
 src/python/database.c       |  2 +-
 src/python/locationmodule.h | 23 ++++++++++++++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/python/database.c b/src/python/database.c
index 9f3c79a..b207777 100644
--- a/src/python/database.c
+++ b/src/python/database.c
@@ -353,7 +353,7 @@ static PyObject* Database_search_networks(DatabaseObject* self, PyObject* args,
 				goto ERROR;
 			}
 
-			const char* country_code = PyUnicode_AsUTF8(item);
+			const char* country_code = PyUnicode_AsCString(item);
 			if (!country_code) {
 				loc_country_list_unref(countries);
 				goto ERROR;
diff --git a/src/python/locationmodule.h b/src/python/locationmodule.h
index 0d4e7f4..4a382f5 100644
--- a/src/python/locationmodule.h
+++ b/src/python/locationmodule.h
@@ -17,10 +17,31 @@
 #ifndef PYTHON_LOCATION_MODULE_H
 #define PYTHON_LOCATION_MODULE_H
 
+#include <string.h>
+
 #include <libloc/libloc.h>
 
 extern struct loc_ctx* loc_ctx;
 
+/*
+	Returns the given string, or NULL with an exception set if
+	it cannot be represented as a string in C
+*/
+static inline const char* PyUnicode_AsCString(PyObject* value) {
+	Py_ssize_t length = 0;
+
+	const char* string = PyUnicode_AsUTF8AndSize(value, &length);
+	if (!string)
+		return NULL;
+
+	if (strlen(string) != (size_t)length) {
+		PyErr_SetString(PyExc_ValueError, "embedded null character");
+		return NULL;
+	}
+
+	return string;
+}
+
 /*
 	Returns the string that an attribute is being set to (which is NULL if the
 	attribute is being deleted), or NULL with an exception set.
@@ -31,7 +52,7 @@ static inline const char* PyAttribute_AsString(PyObject* value) {
 		return NULL;
 	}
 
-	return PyUnicode_AsUTF8(value);
+	return PyUnicode_AsCString(value);
 }
 
 #endif /* PYTHON_LOCATION_MODULE_H */
-- 
2.43.0


From 2b12f3931da7c66851b566ecef66aaad6ff45339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:05 +0000
Subject: [PATCH 57/58] fix: copy ASes and countries that have no name or
 continent

Setting an attribute to None is an error, so that copying a database with
such an AS or country failed.
---
 tools/copy.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tools/copy.py b/tools/copy.py
index 39129c0..c7a0d1c 100644
--- a/tools/copy.py
+++ b/tools/copy.py
@@ -45,7 +45,10 @@ def copy_all(db, writer):
 	# Copy all ASes
 	for old in db.ases:
 		new = writer.add_as(old.number)
-		new.name = old.name
+
+		# Copy name
+		if old.name:
+			new.name = old.name
 
 	# Copy all networks
 	for old in db.networks:
@@ -68,10 +71,12 @@ def copy_all(db, writer):
 		new = writer.add_country(old.code)
 
 		# Copy continent code
-		new.continent_code = old.continent_code
+		if old.continent_code:
+			new.continent_code = old.continent_code
 
 		# Copy name
-		new.name = old.name
+		if old.name:
+			new.name = old.name
 
 def main():
 	"""
-- 
2.43.0


From bb43380762507a2985ccc07897b9825cb0f12975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:05 +0000
Subject: [PATCH 58/58] fix: leave proxies to urllib

urllib takes the proxies from the environment by itself. Setting them for
every protocol on top made requests for HTTPS URLs being sent without TLS
to port 80 if there was a proxy for HTTP as well, and proxies were used
although no_proxy said otherwise.
---
 src/python/location/downloader.py | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/src/python/location/downloader.py b/src/python/location/downloader.py
index 0a5291d..bf0269e 100644
--- a/src/python/location/downloader.py
+++ b/src/python/location/downloader.py
@@ -53,20 +53,6 @@ class Downloader(object):
 		# Randomize mirrors
 		random.shuffle(self.mirrors)
 
-		# Get proxies from environment
-		self.proxies = self._get_proxies()
-
-	def _get_proxies(self):
-		proxies = {}
-
-		for protocol in ("https", "http"):
-			proxy = os.environ.get("%s_proxy" % protocol, None)
-
-			if proxy:
-				proxies[protocol] = proxy
-
-		return proxies
-
 	def _make_request(self, url, baseurl=None, headers={}):
 		if baseurl:
 			url = urllib.parse.urljoin(baseurl, url)
@@ -82,10 +68,6 @@ class Downloader(object):
 		for header in headers:
 			req.add_header(header, headers[header])
 
-		# Set proxies
-		for protocol in self.proxies:
-			req.set_proxy(self.proxies[protocol], protocol)
-
 		return req
 
 	def _send_request(self, req, **kwargs):
-- 
2.43.0

