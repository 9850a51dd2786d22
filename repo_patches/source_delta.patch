From e83d750fc4363e6cac73d9aea0230a8c81b65051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:19 +0000
Subject: [PATCH 01/22] fix: initialise the command group list in ush_init

ush_init linked the built-in commands in front of whatever the commands
pointer happened to contain: with a shell object that is not zeroed, or that
is initialised a second time, lookups followed a garbage pointer or looped
forever on a list linked to itself.
---
 src/src/ush.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/ush.c b/src/src/ush.c
index 0070f6a..44b91f3 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -48,6 +48,7 @@ void ush_init(struct ush_object *self, const struct ush_descriptor *desc)
 
         self->desc = desc;
         self->root = NULL;
+        self->commands = NULL;
 
 #if USH_CONFIG_ENABLE_FEATURE_COMMANDS == 1
         ush_status_t stat = ush_commands_add(self, &self->buildin_commands, g_ush_buildin_commands, g_ush_buildin_commands_num);
-- 
2.43.0


From ef3872e3e83539286b54cf343215c66a4d575750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:21 +0000
Subject: [PATCH 02/22] fix: keep help, ls and xxd output inside the output
 buffer

The listings were formatted with sprintf/strcat without regard to
output_buffer_size (ush_init accepts 4 bytes and more), so a small buffer or
a long file name overran it.
---
 src/src/commands/ush_cmd_help.c |  4 ++--
 src/src/commands/ush_cmd_ls.c   |  6 +++---
 src/src/commands/ush_cmd_xxd.c  | 21 ++++++++++-----------
 3 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/src/commands/ush_cmd_help.c b/src/src/commands/ush_cmd_help.c
index c63f8a8..116ec0d 100644
--- a/src/src/commands/ush_cmd_help.c
+++ b/src/src/commands/ush_cmd_help.c
@@ -88,10 +88,10 @@ bool ush_buildin_cmd_help_service(struct ush_object *self, struct ush_file_descr
                 switch (self->process_index) {
                 case 0:        
                         if (f->description != NULL) {
-                                sprintf(self->desc->output_buffer, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
                                 self->process_index = 1;
                         } else {
-                                sprintf(self->desc->output_buffer, "%s", (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%s", (char*)f->name);
                                 self->process_index = 2;
                         }
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
diff --git a/src/src/commands/ush_cmd_ls.c b/src/src/commands/ush_cmd_ls.c
index 7d1de82..d6ced34 100644
--- a/src/src/commands/ush_cmd_ls.c
+++ b/src/src/commands/ush_cmd_ls.c
@@ -129,17 +129,17 @@ bool ush_buildin_cmd_ls_service(struct ush_object *self, struct ush_file_descrip
                         char is_write = (f->set_data != NULL) ? 'w' : '-';
                         char is_exec = (f->exec != NULL) ? 'x' : '-';
                         char is_help = (f->help != NULL) ? 'h' : '-';
-                        sprintf(self->desc->output_buffer, "-%c%c%c%c ", is_read, is_write, is_exec, is_help);
+                        snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "-%c%c%c%c ", is_read, is_write, is_exec, is_help);
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         self->process_index = 1;
                         break;
                 }
                 case 1:
                         if (f->description != NULL) {
-                                sprintf(self->desc->output_buffer, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%-" USH_STRING(USH_CONFIG_FILENAME_ALIGN_SPACE) "s " USH_SHELL_FONT_COLOR_YELLOW "- " , (char*)f->name);
                                 self->process_index = 2;
                         } else {
-                                sprintf(self->desc->output_buffer, "%s", (char*)f->name);
+                                snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%s", (char*)f->name);
                                 self->process_index = 3;
                         }
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
diff --git a/src/src/commands/ush_cmd_xxd.c b/src/src/commands/ush_cmd_xxd.c
index 27d6ef5..0c6f345 100644
--- a/src/src/commands/ush_cmd_xxd.c
+++ b/src/src/commands/ush_cmd_xxd.c
@@ -77,7 +77,7 @@ bool ush_buildin_cmd_xxd_service(struct ush_object *self, struct ush_file_descri
         case USH_STATE_PROCESS_SERVICE: {
                 switch (self->process_index) {
                 case 0:
-                        sprintf(self->desc->output_buffer, "%08lX: ", self->process_index_item);
+                        snprintf(self->desc->output_buffer, self->desc->output_buffer_size, "%08lX: ", self->process_index_item);
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         self->process_index = 1;
                         break;
@@ -85,14 +85,16 @@ bool ush_buildin_cmd_xxd_service(struct ush_object *self, struct ush_file_descri
                         self->desc->output_buffer[0] = '\0';
                         for (size_t i = 0; i < USH_CMD_XXD_COLUMNS; i++) {
                                 size_t offset = self->process_index_item + i;
+                                size_t len = strlen(self->desc->output_buffer);
                                 if (offset < self->process_data_size) {
                                         uint8_t b = self->process_data[offset];
-                                        sprintf(&self->desc->output_buffer[strlen(self->desc->output_buffer)], "%02X ", b);
+                                        snprintf(&self->desc->output_buffer[len], self->desc->output_buffer_size - len, "%02X ", b);
                                 } else {
-                                        strcat(self->desc->output_buffer, "   ");
+                                        snprintf(&self->desc->output_buffer[len], self->desc->output_buffer_size - len, "   ");
                                 }
                         }
-                        strcat(self->desc->output_buffer, " ");
+                        size_t end = strlen(self->desc->output_buffer);
+                        snprintf(&self->desc->output_buffer[end], self->desc->output_buffer_size - end, " ");
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
                         self->process_index = 2;
                         break;
@@ -101,16 +103,13 @@ bool ush_buildin_cmd_xxd_service(struct ush_object *self, struct ush_file_descri
                         self->desc->output_buffer[0] = '\0';
                         for (size_t i = 0; i < USH_CMD_XXD_COLUMNS; i++) {
                                 size_t offset = self->process_index_item;
+                                char ch = ' ';
                                 if (offset < self->process_data_size) {
                                         uint8_t b = self->process_data[offset];
-                                        if (ush_utils_is_printable(b) != false) {
-                                                sprintf(&self->desc->output_buffer[strlen(self->desc->output_buffer)], "%c", (char)b);
-                                        } else {
-                                                strcat(self->desc->output_buffer, ".");
-                                        }
-                                } else {
-                                        strcat(self->desc->output_buffer, " ");
+                                        ch = (ush_utils_is_printable(b) != false) ? (char)b : '.';
                                 }
+                                size_t len = strlen(self->desc->output_buffer);
+                                snprintf(&self->desc->output_buffer[len], self->desc->output_buffer_size - len, "%c", ch);
                                 self->process_index_item++;
                         }
                         ush_write_pointer(self, self->desc->output_buffer, self->state);
-- 
2.43.0


From 501b102e6a059734cb6df2a6975af8a0e75ac19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:43 +0000
Subject: [PATCH 03/22] fix: require room for a character and the terminator in
 the input buffer

---
 src/src/ush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/ush.c b/src/src/ush.c
index 44b91f3..5daaf3b 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -36,7 +36,7 @@ void ush_init(struct ush_object *self, const struct ush_descriptor *desc)
         USH_ASSERT(desc != NULL);
 
         USH_ASSERT(desc->input_buffer != NULL);
-        USH_ASSERT(desc->input_buffer_size > 0);
+        USH_ASSERT(desc->input_buffer_size > 1); /* at least one char and line terminator */
         USH_ASSERT(desc->output_buffer != NULL);
         USH_ASSERT(desc->output_buffer_size >= 4); /* internal echo buffer */
 
-- 
2.43.0


From 839327dc93ff87e1c8ac988ec19b6423a707ca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:28 +0000
Subject: [PATCH 04/22] fix: find the last argument after a single leading
 space

---
 src/src/ush_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/src/ush_utils.c b/src/src/ush_utils.c
index 6278f6f..3f234c6 100644
--- a/src/src/ush_utils.c
+++ b/src/src/ush_utils.c
@@ -206,10 +206,10 @@ char* ush_utils_get_last_arg(const char *input)
                 return (char*)&input[len + 1];
 
         while (len > 0) {
+                len--;
                 char ch = input[len];
                 if (ch == ' ')
                         return (char*)&input[len + 1];
-                len--;
         }
 
         return (char*)input;
-- 
2.43.0


From 34ba187ff015c21763c2a9421a77e71cee0f686c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:08 +0000
Subject: [PATCH 05/22] fix: refuse paths which do not fit path_max_length

---
 src/src/commands/ush_cmd_ls.c |  4 +++-
 src/src/ush_node.c            | 12 ++++++++++++
 src/src/ush_node_utils.c      |  3 +++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/src/commands/ush_cmd_ls.c b/src/src/commands/ush_cmd_ls.c
index d6ced34..f1b39f3 100644
--- a/src/src/commands/ush_cmd_ls.c
+++ b/src/src/commands/ush_cmd_ls.c
@@ -43,7 +43,9 @@ void ush_buildin_cmd_ls_callback(struct ush_object *self, struct ush_file_descri
                 char abs_path[self->desc->path_max_length];
                 ush_node_get_absolute_path(self, argv[1], abs_path);
 
-                self->process_node = ush_node_get_by_path(self, abs_path);
+                self->process_node = NULL;
+                if (abs_path[0] != '\0')
+                        self->process_node = ush_node_get_by_path(self, abs_path);
                 if (self->process_node == NULL) {
                         ush_print_status(self, USH_STATUS_ERROR_NODE_NOT_FOUND);
                         return;
diff --git a/src/src/ush_node.c b/src/src/ush_node.c
index cf7544f..e6e26d5 100644
--- a/src/src/ush_node.c
+++ b/src/src/ush_node.c
@@ -75,6 +75,18 @@ void ush_node_get_absolute_path(struct ush_object *self, const char *in_path, ch
         USH_ASSERT(in_path != NULL);
         USH_ASSERT(out_path != NULL);
 
+        size_t abs_path_size = strlen(in_path) + 1;
+        if (in_path[0] != '/')
+                abs_path_size += strlen(self->current_node->path) + 1;
+        if ((in_path[0] != '/') && (strcmp(self->current_node->path, "/") == 0))
+                abs_path_size--;
+
+        /* too long path cannot exist, return empty (not absolute) path */
+        if (abs_path_size > self->desc->path_max_length) {
+                out_path[0] = '\0';
+                return;
+        }
+
         if (in_path[0] == '/') {
                 strcpy(abs_path, in_path);
         } else {
diff --git a/src/src/ush_node_utils.c b/src/src/ush_node_utils.c
index 9321a28..b4a2467 100644
--- a/src/src/ush_node_utils.c
+++ b/src/src/ush_node_utils.c
@@ -54,6 +54,9 @@ ush_status_t ush_node_set_current_dir(struct ush_object *self, const char *path)
         char abs_path[self->desc->path_max_length];
         
         ush_node_get_absolute_path(self, path, abs_path);
+        if (abs_path[0] == '\0')
+                return USH_STATUS_ERROR_NODE_NOT_FOUND;
+
         struct ush_node_object *node = ush_node_get_by_path(self, abs_path);
         if (node != NULL) {
                 self->current_node = node;
-- 
2.43.0


From 0c7174322826846413e0a775f48fca275cb0589d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 06/22] fix: skip files whose path does not fit path_max_length

---
 src/src/ush_file.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/src/ush_file.c b/src/src/ush_file.c
index 1ae0db1..080511e 100644
--- a/src/src/ush_file.c
+++ b/src/src/ush_file.c
@@ -51,6 +51,11 @@ struct ush_file_descriptor const* ush_file_find_by_name(struct ush_object *self,
         while (curr != NULL) {
                 for (size_t i = 0; i < curr->file_list_size; i++) {
                         file = &curr->file_list[i];
+                        size_t file_path_size = strlen(curr->path) + strlen(file->name) + 1;
+                        if (strcmp(curr->path, "/") != 0)
+                                file_path_size++;
+                        if (file_path_size > self->desc->path_max_length)
+                                continue;
                         ush_utils_join_path(curr->path, file->name, file_path);
                         if (strcmp(file_path, abs_path) == 0)
                                 return file;
-- 
2.43.0


From d8f0f1b2536dfc82dbf2feac8c4b022fccbf9719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:45 +0000
Subject: [PATCH 07/22] fix: cat empty files whose getter leaves the data
 pointer alone

---
 src/src/commands/ush_cmd_cat.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/src/commands/ush_cmd_cat.c b/src/src/commands/ush_cmd_cat.c
index 78636c5..791cf57 100644
--- a/src/src/commands/ush_cmd_cat.c
+++ b/src/src/commands/ush_cmd_cat.c
@@ -80,8 +80,13 @@ bool ush_buildin_cmd_cat_service(struct ush_object *self, struct ush_file_descri
 
                 struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[self->process_index_item]);
 
-                uint8_t *data;
+                uint8_t *data = NULL;
                 size_t data_size = f->get_data(self, f, &data);
+                if (data == NULL) {
+                        /* empty file */
+                        data = (uint8_t*)"";
+                        data_size = 0;
+                }
 
                 ush_write_pointer_bin(self, data, data_size, self->state);
                 self->process_index_item++;
-- 
2.43.0


From 2c96169c5b91d54f4061d8705475586e56456238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 08/22] fix: stop cat when a file disappears while it is
 running

---
 src/src/commands/ush_cmd_cat.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/src/commands/ush_cmd_cat.c b/src/src/commands/ush_cmd_cat.c
index 791cf57..ffb1435 100644
--- a/src/src/commands/ush_cmd_cat.c
+++ b/src/src/commands/ush_cmd_cat.c
@@ -80,6 +80,12 @@ bool ush_buildin_cmd_cat_service(struct ush_object *self, struct ush_file_descri
 
                 struct ush_file_descriptor const *f = ush_file_find_by_name(self, argv[self->process_index_item]);
 
+                if ((f == NULL) || (f->get_data == NULL)) {
+                        /* file disappeared in the meantime */
+                        ush_print_status(self, USH_STATUS_ERROR_FILE_NOT_FOUND);
+                        break;
+                }
+
                 uint8_t *data = NULL;
                 size_t data_size = f->get_data(self, f, &data);
                 if (data == NULL) {
-- 
2.43.0


From 72dddbb106304bc8e37c7f5116867bac4c8bd448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:20 +0000
Subject: [PATCH 09/22] fix: leave the working directory when it is unmounted

---
 src/src/ush_node_mount.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/src/ush_node_mount.c b/src/src/ush_node_mount.c
index fb0c65e..f83d77a 100644
--- a/src/src/ush_node_mount.c
+++ b/src/src/ush_node_mount.c
@@ -97,6 +97,8 @@ ush_status_t ush_node_unmount(struct ush_object *self, const char *path)
                 } else {
                         prev->next = node->next;
                 }
+                if (self->current_node == node)
+                        self->current_node = parent_node;
                 return USH_STATUS_OK;           
         }
 
-- 
2.43.0


From d9eaaff65c32100735eb3b0c283fa3edf82d0668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:43 +0000
Subject: [PATCH 10/22] fix: leave the node untouched when mounting fails

---
 src/src/ush_node_mount.c | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/src/ush_node_mount.c b/src/src/ush_node_mount.c
index f83d77a..0b356a8 100644
--- a/src/src/ush_node_mount.c
+++ b/src/src/ush_node_mount.c
@@ -37,15 +37,18 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
                 USH_ASSERT(file_list[i].name != NULL);
         }
 
-        node->file_list = file_list;
-        node->file_list_size = file_list_size;
-        node->path = path;
-
         struct ush_node_object *node_exists = ush_node_get_by_path(self, path);
         if (node_exists != NULL)
                 return USH_STATUS_ERROR_NODE_ALREADY_MOUNTED;
 
         struct ush_node_object *node_parent = ush_node_get_parent_by_path(self, path);
+        if ((node_parent == NULL) && (strcmp(path, "/") != 0))
+                return USH_STATUS_ERROR_NODE_WITHOUT_PARENT;
+
+        node->file_list = file_list;
+        node->file_list_size = file_list_size;
+        node->path = path;
+
         if (node_parent != NULL) {
                 node->next = node_parent->children;
                 node_parent->children = node;
@@ -53,15 +56,11 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
                 return USH_STATUS_OK;
         }
 
-        if (strcmp(path, "/") == 0) {
-                node->next = NULL;
-                self->root = node;
-                self->current_node = self->root;
-                node->parent = NULL;
-                return USH_STATUS_OK;
-        }
-
-        return USH_STATUS_ERROR_NODE_WITHOUT_PARENT;
+        node->next = NULL;
+        self->root = node;
+        self->current_node = self->root;
+        node->parent = NULL;
+        return USH_STATUS_OK;
 }
 
 ush_status_t ush_node_unmount(struct ush_object *self, const char *path)
-- 
2.43.0


From 91fdedfa2ecc9bb6740f5d28ad5146a7d25e06d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:43 +0000
Subject: [PATCH 11/22] fix: mount nodes without stale children

---
 src/src/ush_node_mount.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/ush_node_mount.c b/src/src/ush_node_mount.c
index 0b356a8..c26ef5c 100644
--- a/src/src/ush_node_mount.c
+++ b/src/src/ush_node_mount.c
@@ -48,6 +48,7 @@ ush_status_t ush_node_mount(struct ush_object *self, const char *path, struct us
         node->file_list = file_list;
         node->file_list_size = file_list_size;
         node->path = path;
+        node->children = NULL;
 
         if (node_parent != NULL) {
                 node->next = node_parent->children;
-- 
2.43.0


From c402ab524d7d86ee846771dfaa3c3ec57e7c7a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:26 +0000
Subject: [PATCH 12/22] fix: never complete names beyond the input buffer

---
 src/src/ush_autocomp_state.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/src/ush_autocomp_state.c b/src/src/ush_autocomp_state.c
index 6a08f00..87c70d8 100644
--- a/src/src/ush_autocomp_state.c
+++ b/src/src/ush_autocomp_state.c
@@ -86,6 +86,12 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                         break;
                 case 1: {
                         char *suffix = self->autocomp_input + strlen(self->autocomp_input);
+                        size_t pos = self->autocomp_input - self->desc->input_buffer;
+                        /* name, line terminator and null-terminator must fit */
+                        if (pos + strlen(self->autocomp_candidate_name) + 2 > self->desc->input_buffer_size) {
+                                self->state = USH_STATE_READ_CHAR;
+                                break;
+                        }
                         strcpy(self->autocomp_input, self->autocomp_candidate_name);
                         self->in_pos = strlen(self->desc->input_buffer);
                         ush_write_pointer(self, suffix, USH_STATE_READ_CHAR);
@@ -93,6 +99,11 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                 }
                 default:
                         self->autocomp_suffix_len = 0;
+                        if (self->in_pos + 3 > self->desc->input_buffer_size) {
+                                /* no room for next char */
+                                self->state = USH_STATE_AUTOCOMP_RECALL_SUFFIX;
+                                break;
+                        }
                         ush_autocomp_optimize_continue(self);
                         break;
                 }
@@ -108,6 +119,12 @@ void ush_autocomp_state_candidates_finish(struct ush_object *self)
                         return;
                 }
 
+                if (self->in_pos + 3 > self->desc->input_buffer_size) {
+                        /* no room for next char */
+                        self->state = USH_STATE_AUTOCOMP_RECALL_SUFFIX;
+                        return;
+                }
+
                 ush_autocomp_optimize_continue(self);
         } else {
                 USH_ASSERT(false);
-- 
2.43.0


From a8f56444d85461c07a71365a63734ed0841d89f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:27 +0000
Subject: [PATCH 13/22] fix: complete lines containing a null char

---
 src/src/ush_autocomp_state.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/src/ush_autocomp_state.c b/src/src/ush_autocomp_state.c
index 87c70d8..6fd2719 100644
--- a/src/src/ush_autocomp_state.c
+++ b/src/src/ush_autocomp_state.c
@@ -44,6 +44,8 @@ void ush_autocomp_state_recall_suffix(struct ush_object *self)
 
 void ush_autocomp_state_prepare(struct ush_object *self)
 {
+        /* input could contain null char, continue from the end of string */
+        self->in_pos = strlen(self->desc->input_buffer);
         self->autocomp_input = ush_utils_get_last_arg(self->desc->input_buffer);
         self->state = USH_STATE_AUTOCOMP_CANDIDATES_START;
 }
-- 
2.43.0


From 307423e3427000d2211f303efe0f88f43c6f7666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:52 +0000
Subject: [PATCH 14/22] fix: terminate text decoded by echo

---
 src/src/commands/ush_cmd_echo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/src/commands/ush_cmd_echo.c b/src/src/commands/ush_cmd_echo.c
index fe336d8..91573c2 100644
--- a/src/src/commands/ush_cmd_echo.c
+++ b/src/src/commands/ush_cmd_echo.c
@@ -62,6 +62,7 @@ void ush_buildin_cmd_echo_callback(struct ush_object *self, struct ush_file_desc
                 char *data_in = argv[1];
                 size_t max_size = strlen(data_in);
                 data_size = ush_utils_decode_ascii(data_in, (uint8_t*)data_in, max_size);
+                data_in[data_size] = '\0';
                 data = (uint8_t*)data_in;
         }
                 /* fallthrough */
-- 
2.43.0


From 74d9c9943775063daa16cd39c396228189d2ebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:21 +0000
Subject: [PATCH 15/22] fix: keep the ush_printf error notice inside the output
 buffer

---
 src/src/ush.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/src/ush.c b/src/src/ush.c
index 5daaf3b..6c76f43 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -155,15 +155,17 @@ void ush_printf(struct ush_object *self, const char *format, ...)
                 }
 
                 /* Do the error message fit into output_buffer pointed to by self->write_buf? */
-                if (self->desc->output_buffer_size - strlen(self->write_buf) >= strlen(error_msg)) {
+                if (self->desc->output_buffer_size - strlen(self->write_buf) > strlen(error_msg)) {
                         /* Error message fits */
                         size_t end_idx = strlen(self->write_buf);
                         (void)snprintf(&self->write_buf[end_idx], error_msg_size, "%s", error_msg);
                         self->write_size += strlen(&self->write_buf[end_idx]);
                 } else {
                         /* Error message does NOT fit */
-                        size_t end_idx = self->desc->output_buffer_size - error_msg_size;
-                        (void)snprintf(&self->write_buf[end_idx], error_msg_size, "%s", error_msg);
+                        size_t end_idx = 0;
+                        if (self->desc->output_buffer_size > (size_t)error_msg_size)
+                                end_idx = self->desc->output_buffer_size - error_msg_size;
+                        (void)snprintf(&self->write_buf[end_idx], self->desc->output_buffer_size - end_idx, "%s", error_msg);
                         self->write_size = self->desc->output_buffer_size;
                 }
         }
-- 
2.43.0


From 2321bba1eb950c90843a72fe6d09c5872cb682a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:00 +0000
Subject: [PATCH 16/22] fix: keep writes to the demo memory files inside their
 storage

---
 examples/demo_linux/fs/path/dev.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/examples/demo_linux/fs/path/dev.c b/examples/demo_linux/fs/path/dev.c
index b23f947..cb52aad 100644
--- a/examples/demo_linux/fs/path/dev.c
+++ b/examples/demo_linux/fs/path/dev.c
@@ -106,6 +106,9 @@ static void ram_data_setter(struct ush_object *self, struct ush_file_descriptor
         (void)self;
         (void)file;
 
+        if (size > sizeof(g_ram_buffer))
+                size = sizeof(g_ram_buffer);
+
         memcpy(g_ram_buffer, data, size);
 }
 
@@ -123,6 +126,9 @@ static void eeprom_data_setter(struct ush_object *self, struct ush_file_descript
         (void)self;
         (void)file;
 
+        if (size > sizeof(g_eeprom_buffer))
+                size = sizeof(g_eeprom_buffer);
+
         memcpy(g_eeprom_buffer, data, size);
 }
 
-- 
2.43.0


From 9a85df13b1e114790da8793be1b452ef3c6b9f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:14 +0000
Subject: [PATCH 17/22] fix: give ush_printf the whole output buffer in command
 callbacks

---
 src/src/ush.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/src/ush.c b/src/src/ush.c
index 6c76f43..ce8e262 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -117,8 +117,8 @@ void ush_printf(struct ush_object *self, const char *format, ...)
         USH_ASSERT(self != NULL);
         USH_ASSERT(format != NULL);
 
-        /* Make sure that the default output_buffer always is used */
-        if (self->write_buf != self->desc->output_buffer) {
+        /* Make sure that the default output_buffer always is used, without text which is already written */
+        if (self->write_buf != self->desc->output_buffer || self->write_pos >= self->write_size) {
                 /* Reset output_buffer to start position */
                 self->desc->output_buffer[0] = '\0';
                 ush_write_pointer(self, self->desc->output_buffer, USH_STATE_RESET_PROMPT);
-- 
2.43.0


From e1f18653b8de5830ac5b623e21df02a166040a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:47 +0000
Subject: [PATCH 18/22] Revert "fix: keep writes to the demo memory files
 inside their storage"

This reverts commit 2321bba1eb950c90843a72fe6d09c5872cb682a5.
---
 examples/demo_linux/fs/path/dev.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/examples/demo_linux/fs/path/dev.c b/examples/demo_linux/fs/path/dev.c
index cb52aad..b23f947 100644
--- a/examples/demo_linux/fs/path/dev.c
+++ b/examples/demo_linux/fs/path/dev.c
@@ -106,9 +106,6 @@ static void ram_data_setter(struct ush_object *self, struct ush_file_descriptor
         (void)self;
         (void)file;
 
-        if (size > sizeof(g_ram_buffer))
-                size = sizeof(g_ram_buffer);
-
         memcpy(g_ram_buffer, data, size);
 }
 
@@ -126,9 +123,6 @@ static void eeprom_data_setter(struct ush_object *self, struct ush_file_descript
         (void)self;
         (void)file;
 
-        if (size > sizeof(g_eeprom_buffer))
-                size = sizeof(g_eeprom_buffer);
-
         memcpy(g_eeprom_buffer, data, size);
 }
 
-- 
2.43.0


From 9a092972516c023dd1a84d7922b55b7e3c7f47fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:13 +0000
Subject: [PATCH 19/22] fix: initialise shells built without any buildin
 command

---
 src/src/ush.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/src/ush.c b/src/src/ush.c
index ce8e262..97a686c 100644
--- a/src/src/ush.c
+++ b/src/src/ush.c
@@ -51,9 +51,12 @@ void ush_init(struct ush_object *self, const struct ush_descriptor *desc)
         self->commands = NULL;
 
 #if USH_CONFIG_ENABLE_FEATURE_COMMANDS == 1
-        ush_status_t stat = ush_commands_add(self, &self->buildin_commands, g_ush_buildin_commands, g_ush_buildin_commands_num);
-        if (stat != USH_STATUS_OK) {
-                USH_ASSERT(false);
+        /* all buildin commands could be disabled */
+        if (g_ush_buildin_commands_num > 0) {
+                ush_status_t stat = ush_commands_add(self, &self->buildin_commands, g_ush_buildin_commands, g_ush_buildin_commands_num);
+                if (stat != USH_STATUS_OK) {
+                        USH_ASSERT(false);
+                }
         }
 #endif /* USH_CONFIG_ENABLE_FEATURE_COMMANDS */
 
-- 
2.43.0


From 4f4ee09b11c80d1fa445552c273b274e67e99c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:31 +0000
Subject: [PATCH 20/22] fix: complete words . and .. with names from the
 current directory only

---
 src/src/ush_autocomp_utils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/src/ush_autocomp_utils.c b/src/src/ush_autocomp_utils.c
index edf3d0d..6b075a2 100644
--- a/src/src/ush_autocomp_utils.c
+++ b/src/src/ush_autocomp_utils.c
@@ -78,7 +78,9 @@ void ush_autocomp_check_for_finish(struct ush_object *self)
                 self->process_stage = 1;
         } else if (self->process_stage == 1) {
                 ush_node_get_absolute_path(self, self->autocomp_input, abs_path);
-                if (self->autocomp_input[0] == '\0') {
+                if (self->autocomp_input[0] == '\0' ||
+                    strcmp(self->autocomp_input, ".") == 0 || strcmp(self->autocomp_input, "..") == 0) {
+                        /* dots are here only a beginning of name from current directory */
                         self->process_node = self->current_node;
                 } else {
                         self->process_node = ush_node_get_parent_by_path(self, abs_path);
-- 
2.43.0


From 133a5236ffd0bb4750f3b51348108b388dc3cf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:47 +0000
Subject: [PATCH 21/22] fix: let a getter that prints or resets end cat instead
 of hanging the shell

---
 src/src/commands/ush_cmd_cat.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/src/commands/ush_cmd_cat.c b/src/src/commands/ush_cmd_cat.c
index ffb1435..fa0909d 100644
--- a/src/src/commands/ush_cmd_cat.c
+++ b/src/src/commands/ush_cmd_cat.c
@@ -88,6 +88,10 @@ bool ush_buildin_cmd_cat_service(struct ush_object *self, struct ush_file_descri
 
                 uint8_t *data = NULL;
                 size_t data_size = f->get_data(self, f, &data);
+                if (self->state != USH_STATE_PROCESS_SERVICE) {
+                        /* file printed something or reset the shell by itself */
+                        break;
+                }
                 if (data == NULL) {
                         /* empty file */
                         data = (uint8_t*)"";
-- 
2.43.0


From ba6f9d85502b17d93345673ddedf342d0e176ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:11 +0000
Subject: [PATCH 22/22] fix: look up paths longer than the path limit without
 overflowing the stack

ush_node_mount and ush_node_unmount with a path that does not fit
path_max_length copied it into a stack buffer of that size. Compare the
levels in place instead; the tree may hold directories of any length.
---
 src/src/ush_node.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/src/ush_node.c b/src/src/ush_node.c
index e6e26d5..dc83dcb 100644
--- a/src/src/ush_node.c
+++ b/src/src/ush_node.c
@@ -32,8 +32,7 @@ struct ush_node_object* ush_node_get_by_path(struct ush_object *self, const char
         USH_ASSERT(self != NULL);
         USH_ASSERT(path != NULL);
 
-        char level_path[self->desc->path_max_length];
-        
+        size_t level_len = 0;
         size_t levels = ush_utils_get_path_levels_count(path);
 
         if (levels == 0)
@@ -43,11 +42,13 @@ struct ush_node_object* ush_node_get_by_path(struct ush_object *self, const char
 
         struct ush_node_object *curr = self->root->children;
         for (size_t i = 1; i <= levels; i++) {
-                ush_utils_get_path_level(i, path, level_path);
-                
+                level_len++;
+                while ((path[level_len] != '\0') && (path[level_len] != '/'))
+                        level_len++;
+
                 bool found = false;
                 while (curr != NULL) {
-                        if (strcmp(curr->path, level_path) == 0) {
+                        if ((strncmp(curr->path, path, level_len) == 0) && (curr->path[level_len] == '\0')) {
                                 found = true;
                                 break;
                         }
-- 
2.43.0

