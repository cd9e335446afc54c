From d6ec224904bcf42d25b4f514eeed283e5ded03c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 01/69] fix: ScheduledJobQueue::remove must not step back when
 the job at curr_index is removed

curr_index is the position of the next job to examine. Removing the job at
that position made the iteration execute the previous job again, or wrapped
curr_index below zero.
---
 .../sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp b/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
index 4566024..1b7cf7a 100644
--- a/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
+++ b/trick_source/sim_services/ScheduledJobQueue/ScheduledJobQueue.cpp
@@ -151,7 +151,7 @@ int Trick::ScheduledJobQueue::remove( JobData * delete_job ) {
             for ( jj = ii + 1 ; jj < list_size ; jj++ ) {
                 new_list[jj-1] = list[jj] ;
             }
-            if ( ii <= curr_index ) {
+            if ( ii < curr_index ) {
                 curr_index-- ;
             }
             /* Decrement the size of the queue */
-- 
2.43.0


From ad2d15db583efb0b9cb0601ae5cea41e0b6cb4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 02/69] fix: clear_scheduled_queues also empties the
 thread_sync queue

restart() clears every queue and queues all jobs again. The system_thread_sync
queue was left out, so after a checkpoint load each thread_sync job was queued
(and run) twice.
---
 .../sim_services/Executive/Executive_clear_scheduled_queues.cpp  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trick_source/sim_services/Executive/Executive_clear_scheduled_queues.cpp b/trick_source/sim_services/Executive/Executive_clear_scheduled_queues.cpp
index fb14cc7..9637fc4 100644
--- a/trick_source/sim_services/Executive/Executive_clear_scheduled_queues.cpp
+++ b/trick_source/sim_services/Executive/Executive_clear_scheduled_queues.cpp
@@ -14,6 +14,7 @@ int Trick::Executive::clear_scheduled_queues() {
     input_processor_queue.clear() ;
     initialization_queue.clear() ;
     input_processor_run_queue.clear() ;
+    thread_sync_queue.clear() ;
     scheduled_queue.clear() ;
     top_of_frame_queue.clear() ;
     end_of_frame_queue.clear() ;
-- 
2.43.0


From 1724c56adb2cf9535b4a470babab78b6a6fe7a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 03/69] fix: keep fractions of a second when converting tics

set_time_tic_value, Threads::time_tic_changed and get_terminate_time divided
integer tic counts, so a freeze at 2.5 s moved to 2 s, a stop at 0.5 s to 0 s,
when the tic value changed, and get_terminate_time dropped the fraction.
---
 trick_source/sim_services/Executive/Executive.cpp           | 2 +-
 .../sim_services/Executive/Executive_set_time_tic_value.cpp | 6 +++---
 .../sim_services/Executive/Threads_set_amf_cycle_tics.cpp   | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/trick_source/sim_services/Executive/Executive.cpp b/trick_source/sim_services/Executive/Executive.cpp
index 55c43b8..c46fede 100644
--- a/trick_source/sim_services/Executive/Executive.cpp
+++ b/trick_source/sim_services/Executive/Executive.cpp
@@ -268,7 +268,7 @@ double Trick::Executive::get_thread_amf_cycle_time(unsigned int thread_id) {
 }
 
 double Trick::Executive::get_terminate_time() {
-    return(terminate_time / time_tic_value) ;
+    return((double)terminate_time / time_tic_value) ;
 }
 
 int Trick::Executive::get_time_tic_value() {
diff --git a/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp b/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
index 0806c78..41c83cd 100644
--- a/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
+++ b/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
@@ -32,20 +32,20 @@ int Trick::Executive::set_time_tic_value(int in_tics) {
 
     /* reset freeze times */
     while ( ! freeze_times.empty() ) {
-        new_freeze_times.push( (long long)round((freeze_times.top() / old_time_tic_value ) * time_tic_value) ) ;
+        new_freeze_times.push( (long long)round((double)freeze_times.top() / old_time_tic_value * time_tic_value) ) ;
         freeze_times.pop() ;
     }
     freeze_times = new_freeze_times ;
 
     if ( freeze_job != NULL ) {
         if ( freeze_job->next_tics != TRICK_MAX_LONG_LONG ) {
-            freeze_job->next_tics =  (long long)round((freeze_job->next_tics / old_time_tic_value) * time_tic_value) ;
+            freeze_job->next_tics =  (long long)round((double)freeze_job->next_tics / old_time_tic_value * time_tic_value) ;
         }
     }
 
     /* reset stop time */
     if ( terminate_time != TRICK_MAX_LONG_LONG-1 ) {
-        terminate_time = (long long)round((terminate_time / old_time_tic_value) * time_tic_value) ;
+        terminate_time = (long long)round((double)terminate_time / old_time_tic_value * time_tic_value) ;
     }
 
     /* call jobs for other objects that need to know the time_tic changed. */
diff --git a/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp b/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp
index cfa2922..da511d0 100644
--- a/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp
+++ b/trick_source/sim_services/Executive/Threads_set_amf_cycle_tics.cpp
@@ -23,6 +23,6 @@ int Trick::Threads::set_amf_cycle(double in_cycle , long long time_tic_value) {
 */
 int Trick::Threads::time_tic_changed(long long old_time_tic_value , long long time_tic_value) {
     amf_cycle_tics = (long long)(amf_cycle * time_tic_value) ;
-    amf_next_tics = (long long)round((amf_next_tics / old_time_tic_value) * time_tic_value) ;
+    amf_next_tics = (long long)round((double)amf_next_tics / old_time_tic_value * time_tic_value) ;
     return(0) ;
 }
-- 
2.43.0


From 20eac6ac795bd69a7fa96d375aef06fa5d721032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 04/69] fix: name the failing time_tic_changed job in its error
 message

curr_job is some other job, or NULL before the first job was run.
---
 .../sim_services/Executive/Executive_set_time_tic_value.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp b/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
index 41c83cd..1f4d7f0 100644
--- a/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
+++ b/trick_source/sim_services/Executive/Executive_set_time_tic_value.cpp
@@ -55,7 +55,7 @@ int Trick::Executive::set_time_tic_value(int in_tics) {
     while ( (next_job = time_tic_changed_queue.get_next_job()) != NULL ) {
         ret = next_job->call() ;
         if ( ret != 0 ) {
-            message_publish(MSG_ERROR, "ERROR: time_tic_changed job: %s FAILED.\n", curr_job->name.c_str()) ;
+            message_publish(MSG_ERROR, "ERROR: time_tic_changed job: %s FAILED.\n", next_job->name.c_str()) ;
             return(ret) ;
         }
     }
-- 
2.43.0


From 496a57272e76a1e374136fb42ede4b0543a5d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 05/69] fix: derive start and stop tics of jobs from seconds on
 a tic or time change

stop_tics was not rescaled by set_time_tic_value, so a job stopped at the
wrong time after the tic value changed. start_tics was rescaled from its own
previous value: exec_set_time after exec_set_time_tic_value scaled it twice
and a second exec_set_time added the time twice.
---
 trick_source/sim_services/Executive/Executive.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/Executive/Executive.cpp b/trick_source/sim_services/Executive/Executive.cpp
index c46fede..a6637d3 100644
--- a/trick_source/sim_services/Executive/Executive.cpp
+++ b/trick_source/sim_services/Executive/Executive.cpp
@@ -304,6 +304,13 @@ void Trick::Executive::reset_job_cycle_times() {
     for ( ii = 0 ; ii < all_jobs_vector.size() ; ii++ ) {
         Trick::JobData * temp_job = all_jobs_vector[ii] ;
         temp_job->calc_cycle_tics() ;
+        if ( temp_job->stop_tics != TRICK_MAX_LONG_LONG ) {
+            if ( temp_job->stop > TRICK_MAX_LONG_LONG / time_tic_value ) {
+                temp_job->stop_tics = TRICK_MAX_LONG_LONG ;
+            } else {
+                temp_job->stop_tics = (long long)(temp_job->stop * time_tic_value) ;
+            }
+        }
     }
     return ;
 }
@@ -312,7 +319,11 @@ void Trick::Executive::reset_job_call_times() {
     unsigned int ii ;
     for ( ii = 0 ; ii < all_jobs_vector.size() ; ii++ ) {
         Trick::JobData * temp_job = all_jobs_vector[ii] ;
-        temp_job->start_tics = (long long)round((double)temp_job->start_tics / old_time_tic_value * time_tic_value) + time_tics ;
+        if ( temp_job->start > TRICK_MAX_LONG_LONG / time_tic_value ) {
+            temp_job->start_tics = TRICK_MAX_LONG_LONG ;
+        } else {
+            temp_job->start_tics = (long long)(temp_job->start * time_tic_value) + time_tics ;
+        }
 
         if ( temp_job->disabled == false and
              (!temp_job->system_job_class or !temp_job->job_class_name.compare("system_advance_sim_time")) ) {
-- 
2.43.0


From 465edfd7f29e45f2fb04a2167b6e563fd114cf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 06/69] fix: detect checkpointed jobs that the simulation does
 not have

equal_range() returns end() only when no later name exists either; any other
missing job was skipped silently.
---
 trick_source/sim_services/Executive/Executive_restart.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/Executive/Executive_restart.cpp b/trick_source/sim_services/Executive/Executive_restart.cpp
index 9837e7d..750cd2f 100644
--- a/trick_source/sim_services/Executive/Executive_restart.cpp
+++ b/trick_source/sim_services/Executive/Executive_restart.cpp
@@ -63,7 +63,7 @@ int Trick::Executive::restart() {
     /* verify that all jobs in the checkpoint are present in the current simulation */
     for ( ii = 0 ; ii < num_all_jobs ; ii++ ) {
         ret = all_jobs_from_checkpointed_objects.equal_range(all_jobs_for_checkpoint[ii].name) ;
-        if ( ret.first == all_jobs_from_checkpointed_objects.end() ) {
+        if ( ret.first == ret.second ) {
             message_publish(MSG_ERROR, "Could not find job %s\n", all_jobs_for_checkpoint[ii].name.c_str()) ;
             exec_terminate_with_return( -1 , __FILE__ , __LINE__ , "Job in checkpoint file does not exist in current sim." ) ;
         } else {
-- 
2.43.0


From 353f0eaa2b0320e5b237a491252caba35fb54d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 07/69] fix: round the safestore period up from the period, not
 from the previous safestore time

---
 .../sim_services/CheckPointRestart/CheckPointRestart.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/CheckPointRestart/CheckPointRestart.cpp b/trick_source/sim_services/CheckPointRestart/CheckPointRestart.cpp
index 0259abe..e55d404 100644
--- a/trick_source/sim_services/CheckPointRestart/CheckPointRestart.cpp
+++ b/trick_source/sim_services/CheckPointRestart/CheckPointRestart.cpp
@@ -141,7 +141,7 @@ int Trick::CheckPointRestart::set_safestore_time(double in_time) {
     software_frame_tics = exec_get_software_frame_tics() ;
 
     if ( safestore_period % software_frame_tics ) {
-        safestore_period = ((safestore_time / software_frame_tics) + 1 ) * software_frame_tics ;
+        safestore_period = ((safestore_period / software_frame_tics) + 1 ) * software_frame_tics ;
     }
     safestore_time = safestore_period ;
 
-- 
2.43.0


From 13940c1987e57ab293f50ea39db7bc16e697e89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 08/69] fix: write pending data record samples in time when the
 buffer holds one sample

max_num - 2 wraps around for max_num == 1, so nothing was ever written
before the only slot of the buffer was overwritten.
---
 trick_source/sim_services/DataRecord/DataRecordGroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
index 453bd3a..9c7e40b 100644
--- a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
+++ b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
@@ -736,7 +736,7 @@ int Trick::DataRecordGroup::data_record(double in_time) {
             // If this is not the ring buffer and
             // we are going to have trouble fitting 2 data sets then write the data now.
             if ( buffer_type != DR_Ring_Buffer ) {
-                if ( buffer_num - writer_num >= (max_num - 2) ) {
+                if ( buffer_num - writer_num + 2 >= max_num ) {
                     write_data(true) ;
                 }
             }
-- 
2.43.0


From 21c062b64b968d7fad2f2aea01299cdfb761dd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 09/69] fix: step over whole strings when looking for empty
 strings in an array

A reduced checkpoint lost the elements of string arrays, because
is_nil_valued looked at them with the stride of a pointer.
---
 .../sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp b/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
index 3e40446..8b77521 100644
--- a/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
+++ b/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
@@ -459,7 +459,7 @@ int Trick::ClassicCheckPointAgent::is_nil_valued( void* address,
                return(0);
                break;
            case TRICK_STRING :
-               test_addr = (char*)address + offset * sizeof(void*);
+               test_addr = (char*)address + offset * sizeof(std::string);
                if (*(std::string*)test_addr == "") return(1);
                break;
            case TRICK_WSTRING :
-- 
2.43.0


From cefbe1038944a36972dafc3f03534a0d67459dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:36 +0000
Subject: [PATCH 10/69] fix: keep backslashes of strings through a checkpoint

write_quoted_str wrote them unescaped, so the parser took them for the
start of an escape sequence. An escaped backslash at the end of a string
also hid its closing quote.
---
 .../ClassicCheckPointAgent.cpp                |  1 +
 .../CheckPointAgent/input_parser.l            | 30 ++++++-------------
 2 files changed, 10 insertions(+), 21 deletions(-)

diff --git a/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp b/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
index 8b77521..622570e 100644
--- a/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
+++ b/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
@@ -527,6 +527,7 @@ static void write_quoted_str( std::ostream& os, const char* s) {
         case '\t': os << "\\t"; break;
         case '\b': os << "\\b"; break;
         case '\"': os << "\\\""; break;
+        case '\\': os << "\\\\"; break;
         default  : os << s[ii] ; break;
         }
     }
diff --git a/trick_source/sim_services/CheckPointAgent/input_parser.l b/trick_source/sim_services/CheckPointAgent/input_parser.l
index 5893786..8639d05 100644
--- a/trick_source/sim_services/CheckPointAgent/input_parser.l
+++ b/trick_source/sim_services/CheckPointAgent/input_parser.l
@@ -93,29 +93,17 @@ ECHO_OFF    [Ee][Cc][Hh][Oo][ \t_][Oo][Ff][Ff]
 }
 <QSTR>"\"" { 
 
-   int l ; PRINTBMAGENTA ;
+   PRINTBMAGENTA ;
    /*
-    * This rule picks up either 1) the closing double quote of a
-    * string, or 2) an escaped quote within a string.
+    * This rule picks up the closing double quote of a string. An
+    * escaped quote within a string is taken by the backslash rule.
+    * Save off the character string without the closing quote to the
+    * YACC variable, switch the parsing state back to the normal
+    * state and return a S_CON token to YACC
     */
-   l = strlen( I->buf ) ;
-   if( (l > 0) && (I->buf[ l - 1 ] == '\\') ) {
-      /* If the previous character is a backslash then this is an
-       * escaped quote, copy the character to the string buffer an
-       * continue looking for the real closing quote.
-       */
-      I->buf[l-1] = '"' ;
-   }
-   else {
-      /* else this is the real closing quote. Save off the
-       * character string without the closing quote to the YACC
-       * variable, switch the parsing state back to the normal
-       * state and return a S_CON token to YACC
-       */
-      yylval->sval = strdup( I->buf ) ;
-      BEGIN 0 ;
-      return( S_CON ) ;
-   }
+   yylval->sval = strdup( I->buf ) ;
+   BEGIN 0 ;
+   return( S_CON ) ;
 
 }
 
-- 
2.43.0


From db2eed7f1c1322b18e2a6c33ae5e4294e839bc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 11/69] fix: checkpoint the contents of named char arrays

Only the anonymous C-strings, which have no name here, are written with
the pointers to them.
---
 .../MemoryManager/MemoryManager_write_checkpoint.cpp   | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_write_checkpoint.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_write_checkpoint.cpp
index bf88020..a0d290e 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_write_checkpoint.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_write_checkpoint.cpp
@@ -80,13 +80,9 @@ void Trick::MemoryManager::execute_checkpoint( std::ostream& out_s ) {
 
     for (int ii = 0 ; ii < n_depends ; ii ++) {
         alloc_info = dependencies[ii];
-        // Skip naming individual C-string allocations to eliminate unused declarations.
-        // Individual char arrays (size=1, num_index=1) represent single strings that are
-        // included in char* arrays, so we don't need separate allocations for them.
-        // Also, safety check for NULL name before pushing to name stack later.
-        if (!(alloc_info->type == TRICK_CHARACTER && alloc_info->size == 1 && alloc_info->num_index == 1
-              && alloc_info->stcl == TRICK_LOCAL)
-            && alloc_info->name != NULL)
+        // The anonymous C-strings which were not given a name above are written with
+        // the char * which points to them.
+        if (alloc_info->name != NULL)
         {
             write_var(out_s, alloc_info);
             out_s << std::endl;
-- 
2.43.0


From fe2e29859f2d96bc84109da868ea71ef433fe380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 12/69] fix: let strings of a checkpoint be longer than 64 KiB

The parser collected them in a buffer of fixed size without a check.
---
 include/trick/ChkPtParseContext.hh            |  3 ++-
 .../CheckPointAgent/ChkPtParseContext.cpp     |  3 ---
 .../CheckPointAgent/input_parser.l            | 26 +++++++++----------
 3 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/include/trick/ChkPtParseContext.hh b/include/trick/ChkPtParseContext.hh
index b4ba984..13adc0d 100644
--- a/include/trick/ChkPtParseContext.hh
+++ b/include/trick/ChkPtParseContext.hh
@@ -2,6 +2,7 @@
 #define CHKPT_PARSE_CONTEXT_H
 
 #include <iostream>
+#include <string>
 #include <unistd.h>
 
 #include "trick/MemoryManager.hh"
@@ -18,7 +19,7 @@ public:
     int verify_input;                /**< -- Verify input runstream syntax flag */
     int echo_input;                  /**< -- Echo Initialization Data flag */
     std::istream *is;                /**< ** Input Stream */
-    char *buf;                       /**< ** Temporary storage for strings */
+    std::string buf;                 /**< ** Temporary storage for strings */
     void *scanner;                   /**< ** Flex scanner variable.*/
     Trick::MemoryManager *mem_mgr;   /**< ** Associated MemoryManager. */
 
diff --git a/trick_source/sim_services/CheckPointAgent/ChkPtParseContext.cpp b/trick_source/sim_services/CheckPointAgent/ChkPtParseContext.cpp
index 59a5e0c..6420b95 100644
--- a/trick_source/sim_services/CheckPointAgent/ChkPtParseContext.cpp
+++ b/trick_source/sim_services/CheckPointAgent/ChkPtParseContext.cpp
@@ -14,8 +14,6 @@ ChkPtParseContext::ChkPtParseContext( Trick::MemoryManager *mem_mgr, std::istrea
    // Initialize the scanner
    init_scanner();
 
-   this->buf = (char*)calloc( 0xffff, sizeof(char));
-
    this->bad_declaration_count = 0;
    this->bad_assignment_count = 0;
 
@@ -29,6 +27,5 @@ ChkPtParseContext::ChkPtParseContext( Trick::MemoryManager *mem_mgr, std::istrea
  */
 ChkPtParseContext::~ChkPtParseContext() {
     destroy_scanner();
-    free( this->buf );
 }
 
diff --git a/trick_source/sim_services/CheckPointAgent/input_parser.l b/trick_source/sim_services/CheckPointAgent/input_parser.l
index 8639d05..2066002 100644
--- a/trick_source/sim_services/CheckPointAgent/input_parser.l
+++ b/trick_source/sim_services/CheckPointAgent/input_parser.l
@@ -101,7 +101,7 @@ ECHO_OFF    [Ee][Cc][Hh][Oo][ \t_][Oo][Ff][Ff]
     * YACC variable, switch the parsing state back to the normal
     * state and return a S_CON token to YACC
     */
-   yylval->sval = strdup( I->buf ) ;
+   yylval->sval = strdup( I->buf.c_str() ) ;
    BEGIN 0 ;
    return( S_CON ) ;
 
@@ -114,31 +114,31 @@ ECHO_OFF    [Ee][Cc][Hh][Oo][ \t_][Oo][Ff][Ff]
      (*yyextra->is) >> ch;
      switch ( ch ) {
         case 'b' :
-           strcat ( I->buf , "\b" ) ;
+           I->buf += "\b" ;
            break ;
         case 't' :
-           strcat ( I->buf , "\t" ) ;
+           I->buf += "\t" ;
            break ;
         case 'n' :
-           strcat ( I->buf , "\n" ) ;
+           I->buf += "\n" ;
            break ;
         case 'v' :
-           strcat ( I->buf , "\v" ) ;
+           I->buf += "\v" ;
            break ;
         case 'f' :
-           strcat ( I->buf , "\f" ) ;
+           I->buf += "\f" ;
            break ;
         case 'r' :
-           strcat ( I->buf , "\r" ) ;
+           I->buf += "\r" ;
            break ;
         case '\\' :
-           strcat ( I->buf , "\\" ) ;
+           I->buf += "\\" ;
            break ;
         case '\'' :
-           strcat ( I->buf , "\'" ) ;
+           I->buf += "\'" ;
            break ;
         case '\"' :
-           strcat ( I->buf , "\"" ) ;
+           I->buf += "\"" ;
            break ;
      }
      if(I->verify_input || I->echo_input){printf("%c",ch);}
@@ -147,7 +147,7 @@ ECHO_OFF    [Ee][Cc][Hh][Oo][ \t_][Oo][Ff][Ff]
 
 <QSTR>[^"\\]* {
    PRINTBMAGENTA ; 
-   strcat( I->buf , (const char *)yytext ) ;
+   I->buf += (const char *)yytext ;
 }
 
 
@@ -498,7 +498,7 @@ alloc/{W}*\( {
     * a I->buffer to hold the string, and switch the parsing state to a
     * the string only parsing state.
     */
-   I->buf[0] = '\0' ;
+   I->buf.clear() ;
    BEGIN QSTR ;
 }
 
@@ -514,7 +514,7 @@ alloc/{W}*\( {
 
 <QSTR><<EOF>> {
    /* This is an unterminated string */
-   I->error_str = I->buf ;
+   I->error_str = (char *)I->buf.c_str() ;
    return(MM_UNTERMINATED_STRING) ;
 }
 
-- 
2.43.0


From 881eeb7636d05cd997b4fcd1c4173633be13338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 13/69] fix: never let a recording rate below one tic become a
 zero step

---
 trick_source/sim_services/DataRecord/DataRecordGroup.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
index 9c7e40b..846c869 100644
--- a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
+++ b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
@@ -67,6 +67,11 @@ void Trick::LoggingCycle::set_rate(double rate_in)
     long long curr_tic = exec_get_time_tics();
     rate_in_seconds = rate_in;
     long long cycle_tics = (long long)round(rate_in * Trick::JobData::time_tic_value);
+    // A rate below one tic cannot be scheduled, which init() reports. Never let it become a zero divisor or step.
+    if(cycle_tics < 1)
+    {
+        cycle_tics = 1;
+    }
     rate_in_tics = cycle_tics;
     if((curr_tic % cycle_tics) != 0)
     {
-- 
2.43.0


From 703f98601c3527fa8f6bd1a8919ae3bfdefd21bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 14/69] fix: clear every element of an array of pointers

---
 .../sim_services/MemoryManager/MemoryManager_clear_memory.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_clear_memory.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_clear_memory.cpp
index 1a8e345..0b33d80 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_clear_memory.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_clear_memory.cpp
@@ -124,7 +124,7 @@ void Trick::MemoryManager::clear_rvalue( void* base_address, ATTRIBUTES* attr, i
             whether the pointer is NULL.
         */
        if ( extent == 0) {
-           final_address = (char*)base_address;
+           final_address = (char*)base_address + offset * sizeof(void*);
            *(void**)final_address = NULL;
 
        /** @par
-- 
2.43.0


From 4f194ed53c79eae76741f55a4ff55196a2bc222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 15/69] fix: clear std::wstring variables

---
 .../sim_services/MemoryManager/MemoryManager_clear_memory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_clear_memory.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_clear_memory.cpp
index 0b33d80..c6f8472 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_clear_memory.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_clear_memory.cpp
@@ -98,6 +98,10 @@ void Trick::MemoryManager::clear_rvalue( void* base_address, ATTRIBUTES* attr, i
                final_address = (char*)base_address + offset * sizeof(std::string);
                *(std::string*)final_address = "";
                break;
+           case TRICK_WSTRING :
+               final_address = (char*)base_address + offset * sizeof(std::wstring);
+               *(std::wstring*)final_address = L"";
+               break;
            case TRICK_STL :
                final_address = (char*)base_address + offset * attr->size ;
                if ( attr->clear_stl ) {
-- 
2.43.0


From f7d9b9da954953fa56562040e1da19df5cceb76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 16/69] fix: checkpoint infinities and NaNs in a form that can
 be read back

---
 .../ClassicCheckPointAgent.cpp                | 38 ++++++++-----------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp b/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
index 622570e..3093c14 100644
--- a/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
+++ b/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
@@ -637,36 +637,30 @@ void Trick::ClassicCheckPointAgent::write_singleton( std::ostream& chkpnt_os, vo
             break;
         case TRICK_FLOAT:
             src_addr = (char*)address + offset * sizeof(float);
-            if (fpclassify( *(float*)src_addr) != FP_NAN) {
-                if (hexfloat_checkpoint) {
-                    double temp_dbl = *(float*)src_addr;
-                    unsigned char* byte_p = (unsigned char*)&temp_dbl;
-                    chkpnt_os << "0g";
-                    for (int ii=sizeof(double)-1 ; ii>= 0 ; ii--) {
-                        chkpnt_os << std::hex << std::setw(2) << std::setfill('0') << (unsigned int)byte_p[ii];
-                    }
-                } else {
-                    chkpnt_os << std::setprecision(8) << *(float*)src_addr;
+            // The parser has no decimal form of infinities and NaNs.
+            if (hexfloat_checkpoint || !std::isfinite( *(float*)src_addr)) {
+                double temp_dbl = *(float*)src_addr;
+                unsigned char* byte_p = (unsigned char*)&temp_dbl;
+                chkpnt_os << "0g";
+                for (int ii=sizeof(double)-1 ; ii>= 0 ; ii--) {
+                    chkpnt_os << std::hex << std::setw(2) << std::setfill('0') << (unsigned int)byte_p[ii];
                 }
             } else {
-                chkpnt_os << "NAN";
+                chkpnt_os << std::setprecision(8) << *(float*)src_addr;
             }
             break;
         case TRICK_DOUBLE:
             src_addr = (char*)address + offset * sizeof(double);
-            if (fpclassify( *(double*)src_addr) != FP_NAN) {
-                if (hexfloat_checkpoint) {
-                    double temp_dbl = *(double*)src_addr;
-                    unsigned char* byte_p = (unsigned char*)&temp_dbl;
-                    chkpnt_os << "0g";
-                    for (int ii=sizeof(double)-1 ; ii>= 0 ; ii--) {
-                        chkpnt_os << std::hex << std::setw(2) << std::setfill('0') << (unsigned int)byte_p[ii];
-                    }
-                } else {
-                    chkpnt_os << std::setprecision(16) << *(double*)src_addr;
+            // The parser has no decimal form of infinities and NaNs.
+            if (hexfloat_checkpoint || !std::isfinite( *(double*)src_addr)) {
+                double temp_dbl = *(double*)src_addr;
+                unsigned char* byte_p = (unsigned char*)&temp_dbl;
+                chkpnt_os << "0g";
+                for (int ii=sizeof(double)-1 ; ii>= 0 ; ii--) {
+                    chkpnt_os << std::hex << std::setw(2) << std::setfill('0') << (unsigned int)byte_p[ii];
                 }
             } else {
-                chkpnt_os << "NAN";
+                chkpnt_os << std::setprecision(16) << *(double*)src_addr;
             }
             break;
         case TRICK_BITFIELD: {
-- 
2.43.0


From 1b1b923477688205035fc93062fa1b964f42c27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 17/69] fix: byteswap exactly the staged value of a variable

A single element of an array was swapped as if it were the whole array, past the
end of the buffers; strings, STL elements and the targets of pointers were sent as
zeros, and bit fields were not swapped at all.
---
 .../VariableServer/VariableReference.cpp      | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/trick_source/sim_services/VariableServer/VariableReference.cpp b/trick_source/sim_services/VariableServer/VariableReference.cpp
index 626eb59..8ee09e4 100644
--- a/trick_source/sim_services/VariableServer/VariableReference.cpp
+++ b/trick_source/sim_services/VariableServer/VariableReference.cpp
@@ -675,15 +675,18 @@ void Trick::VariableReference::byteswap_var (char * out, char * in) const {
 
 
 void Trick::VariableReference::byteswap_var (char * out, char * in, const VariableReference& ref) {
-    ATTRIBUTES * attr = ref._var_info->attr;
-    int array_size = 1;
-
-    // Determine how many elements are in this array if it is an array
-    for (int j = 0; j < ref._var_info->attr->num_index; j++) {
-        array_size *= attr->index[j].size;
-    }
-
-    switch (attr->size) {
+    // The buffers hold the staged value, which may be one element of an array or of an STL container
+    int elem_size = ref._var_info->attr->size;
+    if (ref._trick_type == TRICK_STRING) {
+        elem_size = sizeof(char);
+    } else if (ref._trick_type == TRICK_WSTRING) {
+        elem_size = sizeof(wchar_t);
+    } else if (ref._var_info->attr->type == TRICK_STL) {
+        elem_size = ref._size;
+    }
+    int array_size = ref._size / elem_size;
+
+    switch (elem_size) {
         case 1:
             // If these are just characters, no need to byteswap
             for (int j = 0; j < array_size; j++) {
@@ -736,6 +739,9 @@ int Trick::VariableReference::writeValueBinary( std::ostream& out, bool byteswap
     if ( local_type == TRICK_BITFIELD ) {
         int temp_i = GET_BITFIELD(_write_buffer , _var_info->attr->size ,
             _var_info->attr->index[0].start, _var_info->attr->index[0].size) ;
+        if (byteswap) {
+            byteswap_var((char *)(&temp_i), (char *)(&temp_i));
+        }
         out.write((char *)(&temp_i), _size);
         return _size;
     }
@@ -743,6 +749,9 @@ int Trick::VariableReference::writeValueBinary( std::ostream& out, bool byteswap
     if ( local_type == TRICK_UNSIGNED_BITFIELD ) {
         int temp_unsigned = GET_UNSIGNED_BITFIELD(_write_buffer , _var_info->attr->size ,
                 _var_info->attr->index[0].start, _var_info->attr->index[0].size) ;
+        if (byteswap) {
+            byteswap_var((char *)(&temp_unsigned), (char *)(&temp_unsigned));
+        }
         out.write((char *)(&temp_unsigned), _size);
         return _size;
     }
-- 
2.43.0


From 34b6774dd6ac6b765267bf9ce41ae738177c8d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 18/69] fix: stage strings longer than MAX_ARRAY_LENGTH in a
 buffer that holds them

---
 .../sim_services/VariableServer/VariableReference.cpp       | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trick_source/sim_services/VariableServer/VariableReference.cpp b/trick_source/sim_services/VariableServer/VariableReference.cpp
index 8ee09e4..b1e09a0 100644
--- a/trick_source/sim_services/VariableServer/VariableReference.cpp
+++ b/trick_source/sim_services/VariableServer/VariableReference.cpp
@@ -348,6 +348,9 @@ int Trick::VariableReference::stageValue(bool validate_address) {
             _size = 0 ;
         } else {
             _size = strlen((char*)_address) + 1 ;
+            if (_size > MAX_ARRAY_LENGTH) {
+                _stage_buffer = realloc(_stage_buffer, _size) ;
+            }
         }
     }
     // handle c++ wstring and wchar_t*
@@ -356,6 +359,9 @@ int Trick::VariableReference::stageValue(bool validate_address) {
             _size = 0 ;
         } else {
             _size = (wcslen((wchar_t *)_address) + 1) * sizeof(wchar_t);
+            if (_size > MAX_ARRAY_LENGTH) {
+                _stage_buffer = realloc(_stage_buffer, _size) ;
+            }
         }
     }
     if(_address != NULL) {
-- 
2.43.0


From 7e9e384de4cdb78bf5ef9e04e1f31f52d4f0d8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:44 +0000
Subject: [PATCH 19/69] fix: send enumerations of one and two bytes with their
 own size

---
 .../sim_services/VariableServer/VariableReference.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/VariableServer/VariableReference.cpp b/trick_source/sim_services/VariableServer/VariableReference.cpp
index b1e09a0..2f360f1 100644
--- a/trick_source/sim_services/VariableServer/VariableReference.cpp
+++ b/trick_source/sim_services/VariableServer/VariableReference.cpp
@@ -513,8 +513,17 @@ int Trick::VariableReference::writeValueAscii( std::ostream& out ) const {
             out << (unsigned short)cv_convert_double(_conversion_factor,*(unsigned short *)buf_ptr);
             break;
 
-        case TRICK_INTEGER:
         case TRICK_ENUMERATED:
+            if (_var_info->attr->size == sizeof(char)) {
+                out << (int)cv_convert_double(_conversion_factor,*(signed char *)buf_ptr);
+                break;
+            }
+            if (_var_info->attr->size == sizeof(short)) {
+                out << (int)cv_convert_double(_conversion_factor,*(short *)buf_ptr);
+                break;
+            }
+            // fall through
+        case TRICK_INTEGER:
             out << (int)cv_convert_double(_conversion_factor,*(int *)buf_ptr);
             break;
 
-- 
2.43.0


From 3740ed73178a588ee325f286e4509e93e8468f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:45 +0000
Subject: [PATCH 20/69] fix: record enumerations of one and two bytes with
 their own size

---
 trick_source/sim_services/DataRecord/DRAscii.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trick_source/sim_services/DataRecord/DRAscii.cpp b/trick_source/sim_services/DataRecord/DRAscii.cpp
index e6318a6..015c5b0 100644
--- a/trick_source/sim_services/DataRecord/DRAscii.cpp
+++ b/trick_source/sim_services/DataRecord/DRAscii.cpp
@@ -216,6 +216,15 @@ int Trick::DRAscii::copy_data_ascii_item( Trick::DataRecordBuffer * DI, int item
         break;
 
     case TRICK_ENUMERATED:
+        if (item_size == sizeof(char)) {
+            snprintf(buf, writer_buf_spare, "%d", *((signed char*)address));
+            break;
+        }
+        if (item_size == sizeof(short)) {
+            snprintf(buf, writer_buf_spare, "%d", *((short*)address));
+            break;
+        }
+        // fall through
     case TRICK_INTEGER:
         snprintf(buf, writer_buf_spare, "%d", *((int*)address));
         break;
-- 
2.43.0


From 6f9a2ea010ba1b540331ff097b828033debf465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:45 +0000
Subject: [PATCH 21/69] fix: leave no text of earlier samples in columns of
 types without a text form

---
 trick_source/sim_services/DataRecord/DRAscii.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trick_source/sim_services/DataRecord/DRAscii.cpp b/trick_source/sim_services/DataRecord/DRAscii.cpp
index 015c5b0..50277aa 100644
--- a/trick_source/sim_services/DataRecord/DRAscii.cpp
+++ b/trick_source/sim_services/DataRecord/DRAscii.cpp
@@ -268,6 +268,8 @@ int Trick::DRAscii::copy_data_ascii_item( Trick::DataRecordBuffer * DI, int item
         snprintf(buf, writer_buf_spare, "%llu", *((unsigned long long*)address));
         break;
     default:
+        // no text for this type, and none left over from the previous sample
+        buf[0] = '\0';
         break;
     }
 
-- 
2.43.0


From bfc9e6afe940130e89145066bc4cf8e0801b42aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:27 +0000
Subject: [PATCH 22/69] fix: size and bound the ASCII record buffer by the
 delimiter and formats in use

A delimiter of several characters, or a wide number format, made the text of
one record longer than 25 characters per variable: the delimiter was appended
behind the end of the record buffer.
---
 trick_source/sim_services/DataRecord/DRAscii.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/trick_source/sim_services/DataRecord/DRAscii.cpp b/trick_source/sim_services/DataRecord/DRAscii.cpp
index 50277aa..6302872 100644
--- a/trick_source/sim_services/DataRecord/DRAscii.cpp
+++ b/trick_source/sim_services/DataRecord/DRAscii.cpp
@@ -17,6 +17,9 @@ PROGRAMMERS:
 #include "trick/message_type.h"
 
 #include <iostream>
+#include <algorithm>
+#include <float.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -58,15 +61,18 @@ int Trick::DRAscii::format_specific_init() {
     }
 
     /* Calculate a "worst case" for space used for 1 record. */
-    writer_buff_size = record_size * rec_buffer.size();
+    int float_width = snprintf(NULL, 0, ascii_float_format.c_str(), -FLT_MAX) ;
+    int double_width = snprintf(NULL, 0, ascii_double_format.c_str(), -DBL_MAX) ;
+    size_t column_size = std::max((int)record_size, std::max(float_width, double_width) + 1) + delimiter.length() ;
+    writer_buff_size = column_size * rec_buffer.size();
     writer_buff = (char *)calloc(1 , writer_buff_size) ;
 
     /* This loop touches all of the memory locations in the allocation forcing the
        system to actually do the allocation */
-    for ( jj= 0 ; jj < record_size * rec_buffer.size() ; jj += 1024 ) {
+    for ( jj= 0 ; jj < writer_buff_size ; jj += 1024 ) {
         writer_buff[jj] = 1 ;
     }
-    writer_buff[record_size * rec_buffer.size() - 1] = 1 ;
+    writer_buff[writer_buff_size - 1] = 1 ;
 
     out_stream.open(file_name.c_str(), std::fstream::out | std::fstream::app ) ;
     if ( !out_stream || !out_stream.good() ) {
@@ -124,8 +130,8 @@ int Trick::DRAscii::format_specific_write_data(unsigned int writer_offset) {
 
     /* Write out all other parameters */
     for (ii = 1; ii < rec_buffer.size() ; ii++) {
-        strcat(buf, delimiter.c_str() );
-        buf += delimiter.length() ;
+        snprintf(buf, writer_buff + writer_buff_size - buf, "%s", delimiter.c_str());
+        buf += strlen(buf) ;
         copy_data_ascii_item(rec_buffer[ii], writer_offset, buf );
         buf += strlen(buf);
     }
-- 
2.43.0


From 6e705430dae3895cc47a7f4dff826cc116378284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:43 +0000
Subject: [PATCH 23/69] fix: read recorded long, swapped and small enumerated
 values as they were written

Longs fell through into the unsigned long case, swapped unsigned shorts kept
their sign, swapped float times were swapped as doubles and enumerations of
one or two bytes were read as four.
---
 trick_source/data_products/Log/TrickBinary.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/trick_source/data_products/Log/TrickBinary.cpp b/trick_source/data_products/Log/TrickBinary.cpp
index 1688f44..dd1e97f 100644
--- a/trick_source/data_products/Log/TrickBinary.cpp
+++ b/trick_source/data_products/Log/TrickBinary.cpp
@@ -136,6 +136,7 @@ TrickBinary::TrickBinary(char * file_name , char * param_name ) {
                                             default:
                                                 break ;
                                         }
+                                        break ;
                                     case TRICK_UNSIGNED_LONG:
                                         switch  ( size ) {
                                             case 4:
@@ -215,7 +216,7 @@ int TrickBinary::get( double * time , double * value ) {
                 else {
                         float *my_time = (float *)record_ ;
                         *time = (double)*my_time ;
-                        *time = swap_ ? trick_byteswap_double(*my_time) : *time ;
+                        *time = swap_ ? (double)trick_byteswap_float(*my_time) : *time ;
                 }
 
                 switch ( type_ ) {
@@ -233,9 +234,19 @@ int TrickBinary::get( double * time , double * value ) {
                                 break ;
                         case TRICK_UNSIGNED_SHORT:
                                 usp = (unsigned short *)(record_ + record_offset_) ;
-                                *value = (double)(swap_ ? trick_byteswap_short(*usp) : *usp) ;
+                                *value = (double)(swap_ ? (unsigned short)trick_byteswap_short(*usp) : *usp) ;
                                 break ;
                         case TRICK_ENUMERATED:
+                                if ( size_ == 1 ) {
+                                        *value = (double)*(signed char *)(record_ + record_offset_) ;
+                                        break ;
+                                }
+                                if ( size_ == 2 ) {
+                                        sp = (short *)(record_ + record_offset_) ;
+                                        *value = (double)(swap_ ? trick_byteswap_short(*sp) : *sp) ;
+                                        break ;
+                                }
+                                // an enumeration of four bytes is stored as an int
                         case TRICK_INTEGER:
                                 ip = (int *)(record_ + record_offset_) ;
                                 *value = (double)(swap_ ? trick_byteswap_int(*ip) : *ip) ;
-- 
2.43.0


From 7bb81ff1ec7b8c539094327a53eb3d706be5987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 24/69] fix: escape bytes above 0x7f of variable server strings
 within their buffer

---
 trick_source/sim_services/VariableServer/VariableReference.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/VariableServer/VariableReference.cpp b/trick_source/sim_services/VariableServer/VariableReference.cpp
index 2f360f1..f7186f4 100644
--- a/trick_source/sim_services/VariableServer/VariableReference.cpp
+++ b/trick_source/sim_services/VariableServer/VariableReference.cpp
@@ -409,7 +409,7 @@ static void write_escaped_string( std::ostream& os, const char* s) {
                 default  : {
                     // Replicating behavior from original vs_format_ascii
                     char temp_s[6];
-                    sprintf(temp_s, "\\x%02x", s[ii]);
+                    sprintf(temp_s, "\\x%02x", (unsigned char) s[ii]);
                     os << temp_s ; 
                     break;
                 }
-- 
2.43.0


From 2769bf2308a4e907c07426c970c0d8553d9f29ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:27 +0000
Subject: [PATCH 25/69] fix: stop at the end of char arrays without a
 terminator when they are sent

---
 .../sim_services/VariableServer/VariableReference.cpp  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/trick_source/sim_services/VariableServer/VariableReference.cpp b/trick_source/sim_services/VariableServer/VariableReference.cpp
index f7186f4..b69b2f1 100644
--- a/trick_source/sim_services/VariableServer/VariableReference.cpp
+++ b/trick_source/sim_services/VariableServer/VariableReference.cpp
@@ -392,8 +392,8 @@ bool Trick::VariableReference::validate() {
     return true;
 }
 
-static void write_escaped_string( std::ostream& os, const char* s) {
-    for (int ii=0 ; ii<strlen(s) ; ii++) {
+static void write_escaped_string( std::ostream& os, const char* s, int max_length) {
+    for (int ii=0 ; ii<max_length && s[ii] != '\0' ; ii++) {
         if (isprint(s[ii])) {
             os << s[ii];
         } else {
@@ -453,7 +453,7 @@ int Trick::VariableReference::writeValueAscii( std::ostream& out ) const {
                 out << (int)cv_convert_double(_conversion_factor, *(char *)buf_ptr);
             } else {
                 // All but last dim specified, leaves a char array 
-                write_escaped_string(out, (const char *) buf_ptr);
+                write_escaped_string(out, (const char *) buf_ptr, _size);
                 bytes_written = _size ;
             }
             break;
@@ -463,7 +463,7 @@ int Trick::VariableReference::writeValueAscii( std::ostream& out ) const {
                 out << (unsigned int)cv_convert_double(_conversion_factor,*(unsigned char *)buf_ptr);
             } else {
                 // All but last dim specified, leaves a char array 
-                write_escaped_string(out, (const char *) buf_ptr);
+                write_escaped_string(out, (const char *) buf_ptr, _size);
                 bytes_written = _size ;
             }
             break;
@@ -485,7 +485,7 @@ int Trick::VariableReference::writeValueAscii( std::ostream& out ) const {
 
         case TRICK_STRING:
             if ((char *) buf_ptr != NULL) {
-                write_escaped_string(out, (const char *) buf_ptr);
+                write_escaped_string(out, (const char *) buf_ptr, _size);
                 bytes_written = _size ;
             } else {
                 out << '\0';
-- 
2.43.0


From e2b090b94efdcac8d60d0aab117f6e02ed63f5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:35 +0000
Subject: [PATCH 26/69] fix: never let the cycle or frame multiple of a
 variable server client be zero

---
 .../VariableServer/VariableServerSession_commands.cpp      | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp b/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp
index 77c0e88..8567557 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp
@@ -230,6 +230,9 @@ int Trick::VariableServerSession::var_send() {
 int Trick::VariableServerSession::var_cycle(double in_rate) {
     _update_rate = in_rate ;
     _cycle_tics = (long long)(_update_rate * exec_get_time_tic_value()) ;
+    if (_cycle_tics < 1) {
+        _cycle_tics = 1;
+    }
     return(0) ;
 }
 
@@ -317,7 +320,7 @@ int Trick::VariableServerSession::var_sync(int mode) {
 }
 
 int Trick::VariableServerSession::var_set_frame_multiple(unsigned int mult) {
-    _frame_multiple = mult ;
+    _frame_multiple = (mult == 0) ? 1 : mult ;
     return 0 ;
 }
 
@@ -327,7 +330,7 @@ int Trick::VariableServerSession::var_set_frame_offset(unsigned int offset) {
 }
 
 int Trick::VariableServerSession::var_set_freeze_frame_multiple(unsigned int mult) {
-    _freeze_frame_multiple = mult ;
+    _freeze_frame_multiple = (mult == 0) ? 1 : mult ;
     return 0 ;
 }
 
-- 
2.43.0


From 01309923386a1f721bddeade51557759e49fcdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:35 +0000
Subject: [PATCH 27/69] fix: send files to variable server clients byte by byte
 and close them

---
 .../VariableServer/VariableServerSession_commands.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp b/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp
index 8567557..47333f5 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp
@@ -425,16 +425,23 @@ int Trick::VariableServerSession::transmit_file(std::string filename) {
 
     while ( current_size < file_size ) {
         bytes_read = fread(buffer , 1 , packet_size , fp) ;
-        message = std::string(buffer);
-        message.resize(bytes_read);
+        if (bytes_read == 0) {
+            message_publish(MSG_ERROR,"Variable Server Error: Failed to read %s.\n", filename.c_str()) ;
+            fclose(fp) ;
+            return(-1);
+        }
+        message.assign(buffer, bytes_read);
         ret = _connection->write(message);
         if (ret != (int)bytes_read) {
             message_publish(MSG_ERROR,"Variable Server Error: Failed to send file. Bytes read: %d Bytes sent: %d\n", bytes_read, ret) ;
+            fclose(fp) ;
             return(-1);
         }
         current_size += bytes_read ;
     }
 
+    fclose(fp) ;
+
     // Switch back to non-blocking writes.
     if (_connection->setBlockMode(false)) {
         message_publish(MSG_DEBUG,"Variable Server Error: Failed to set socket to non-blocking mode.\n");
-- 
2.43.0


From e0033e560e1c7c305f726ee07c7a243c5372b431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:46 +0000
Subject: [PATCH 28/69] fix: always answer var_send_once, also while values are
 being copied

---
 .../VariableServer/VariableServerSession_copy_sim_data.cpp     | 3 ++-
 .../VariableServer/VariableServerSession_write_data.cpp        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/trick_source/sim_services/VariableServer/VariableServerSession_copy_sim_data.cpp b/trick_source/sim_services/VariableServer/VariableServerSession_copy_sim_data.cpp
index 50febc3..eb8af56 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSession_copy_sim_data.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSession_copy_sim_data.cpp
@@ -19,7 +19,8 @@ int Trick::VariableServerSession::copy_sim_data(std::vector<VariableReference *>
         return 0;
     }
 
-    if ( pthread_mutex_trylock(&_copy_mutex) == 0 ) {
+    // Cyclic copies may be skipped while a copy is in progress, single copies are waited for
+    if ( (cyclical ? pthread_mutex_trylock(&_copy_mutex) : pthread_mutex_lock(&_copy_mutex)) == 0 ) {
         // Get the simulation time we start this copy
         _time = (double)exec_get_time_tics() / exec_get_time_tic_value() ;
         
diff --git a/trick_source/sim_services/VariableServer/VariableServerSession_write_data.cpp b/trick_source/sim_services/VariableServer/VariableServerSession_write_data.cpp
index c293bc1..f2a9408 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSession_write_data.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSession_write_data.cpp
@@ -209,7 +209,8 @@ int Trick::VariableServerSession::write_data(std::vector<VariableReference *>& g
 
     int result = 0;
 
-    if ( pthread_mutex_trylock(&_copy_mutex) == 0 ) {
+    // A reply to var_send_once is only sent here, it must not be skipped
+    if ( (message_type == VS_SEND_ONCE ? pthread_mutex_lock(&_copy_mutex) : pthread_mutex_trylock(&_copy_mutex)) == 0 ) {
         // Check that all of the variables are staged
         for (VariableReference * variable : given_vars ) {
             if (!variable->isStaged()) {
-- 
2.43.0


From dbdacc517a744e3c2779e7c3ba4672fce2b49e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:03 +0000
Subject: [PATCH 29/69] fix: drop the freeze copy time of a variable server
 client that leaves scheduled mode

---
 .../VariableServer/VariableServerSession_commands.cpp            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp b/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp
index 47333f5..bf63794 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp
@@ -284,6 +284,7 @@ int Trick::VariableServerSession::var_set_copy_mode(int mode) {
 
         } else {
             _next_tics = TRICK_MAX_LONG_LONG ;
+            _freeze_next_tics = TRICK_MAX_LONG_LONG ;
         }
         return 0 ;
     }
-- 
2.43.0


From 012b822ad059a92675386a3e5001269679dd5a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:29 +0000
Subject: [PATCH 30/69] fix: keep the terminator of text received from clients
 inside its buffer

---
 .../trick_utils/connection_handlers/MulticastGroup.cpp      | 6 +++---
 .../trick_utils/connection_handlers/TCPConnection.cpp       | 2 +-
 .../trick_utils/connection_handlers/UDPConnection.cpp       | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/trick_source/trick_utils/connection_handlers/MulticastGroup.cpp b/trick_source/trick_utils/connection_handlers/MulticastGroup.cpp
index 35c9bc6..09cf606 100644
--- a/trick_source/trick_utils/connection_handlers/MulticastGroup.cpp
+++ b/trick_source/trick_utils/connection_handlers/MulticastGroup.cpp
@@ -153,8 +153,8 @@ int Trick::MulticastGroup::read  (std::string& message, int max_len) {
     struct sockaddr_in s_in ;
     socklen_t sock_size = sizeof(s_in) ;
 
-    char incoming_msg[max_len];
-    int nbytes = _system_interface->recvfrom( _socket, incoming_msg, MAX_CMD_LEN, MSG_PEEK,(struct sockaddr *)&s_in, &sock_size ) ;
+    char incoming_msg[max_len + 1];
+    int nbytes = _system_interface->recvfrom( _socket, incoming_msg, max_len, MSG_PEEK,(struct sockaddr *)&s_in, &sock_size ) ;
 
     if (nbytes == 0 ) {
         return 0;
@@ -174,7 +174,7 @@ int Trick::MulticastGroup::read  (std::string& message, int max_len) {
     // Make sure that this message isn't from ourself
     if ( s_in.sin_addr.s_addr == _self_info.sin_addr.s_addr && s_in.sin_port == _self_info.sin_port) {
         // Clear out the socket
-        _system_interface->recvfrom( _socket, incoming_msg, MAX_CMD_LEN, 0 , 0, 0) ;
+        _system_interface->recvfrom( _socket, incoming_msg, max_len, 0 , 0, 0) ;
         return 0;
     }
 
diff --git a/trick_source/trick_utils/connection_handlers/TCPConnection.cpp b/trick_source/trick_utils/connection_handlers/TCPConnection.cpp
index e00174b..5d8da3b 100644
--- a/trick_source/trick_utils/connection_handlers/TCPConnection.cpp
+++ b/trick_source/trick_utils/connection_handlers/TCPConnection.cpp
@@ -62,7 +62,7 @@ int Trick::TCPConnection::read  (std::string& message, int max_len) {
         return 0;
     }
 
-    char incoming_msg[max_len];
+    char incoming_msg[max_len + 1];
 
     int max_receive_length = max_len < MAX_CMD_LEN ? max_len : MAX_CMD_LEN;
     int nbytes = _system_interface->recv(_socket, incoming_msg, max_receive_length, MSG_PEEK);
diff --git a/trick_source/trick_utils/connection_handlers/UDPConnection.cpp b/trick_source/trick_utils/connection_handlers/UDPConnection.cpp
index e907697..fcfe2c4 100644
--- a/trick_source/trick_utils/connection_handlers/UDPConnection.cpp
+++ b/trick_source/trick_utils/connection_handlers/UDPConnection.cpp
@@ -121,8 +121,8 @@ int Trick::UDPConnection::read  (std::string& message, int max_len) {
     if (!_started)
         return 0;
 
-    char incoming_msg[max_len];
-    int nbytes = _system_interface->recvfrom( _socket, incoming_msg, MAX_CMD_LEN, MSG_PEEK, NULL, NULL ) ;
+    char incoming_msg[max_len + 1];
+    int nbytes = _system_interface->recvfrom( _socket, incoming_msg, max_len, MSG_PEEK, NULL, NULL ) ;
     if (nbytes == 0 ) {
         return 0;
     }
-- 
2.43.0


From 8642684f743f2175ce6363ace655b69fedac05c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:29 +0000
Subject: [PATCH 31/69] fix: send strings to clients with all of their bytes

---
 .../trick_utils/connection_handlers/MulticastGroup.cpp       | 4 +---
 .../trick_utils/connection_handlers/TCPConnection.cpp        | 5 +----
 .../trick_utils/connection_handlers/UDPConnection.cpp        | 4 +---
 3 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/trick_source/trick_utils/connection_handlers/MulticastGroup.cpp b/trick_source/trick_utils/connection_handlers/MulticastGroup.cpp
index 09cf606..9039e95 100644
--- a/trick_source/trick_utils/connection_handlers/MulticastGroup.cpp
+++ b/trick_source/trick_utils/connection_handlers/MulticastGroup.cpp
@@ -138,11 +138,9 @@ int Trick::MulticastGroup::write (const std::string& message) {
     if (!_started)
         return -1;
 
-    char send_buf[message.length()+1];
-    strcpy (send_buf, message.c_str());
     socklen_t sock_size = sizeof(_remote_serv_addr);
 
-    return _system_interface->sendto(_socket, send_buf, message.length(), 0, (struct sockaddr *) &_remote_serv_addr, sock_size );
+    return _system_interface->sendto(_socket, message.data(), message.length(), 0, (struct sockaddr *) &_remote_serv_addr, sock_size );
 }
 
 
diff --git a/trick_source/trick_utils/connection_handlers/TCPConnection.cpp b/trick_source/trick_utils/connection_handlers/TCPConnection.cpp
index 5d8da3b..ac6c609 100644
--- a/trick_source/trick_utils/connection_handlers/TCPConnection.cpp
+++ b/trick_source/trick_utils/connection_handlers/TCPConnection.cpp
@@ -49,10 +49,7 @@ int Trick::TCPConnection::write (const std::string& message) {
     if (!_connected)
         return -1;
 
-    char send_buf[message.length()+1];
-    strcpy (send_buf, message.c_str());
-
-    return _system_interface->send(_socket, send_buf, message.length(), 0);
+    return _system_interface->send(_socket, message.data(), message.length(), 0);
 }
 
 int Trick::TCPConnection::read  (std::string& message, int max_len) {
diff --git a/trick_source/trick_utils/connection_handlers/UDPConnection.cpp b/trick_source/trick_utils/connection_handlers/UDPConnection.cpp
index fcfe2c4..c8c3dbb 100644
--- a/trick_source/trick_utils/connection_handlers/UDPConnection.cpp
+++ b/trick_source/trick_utils/connection_handlers/UDPConnection.cpp
@@ -110,11 +110,9 @@ int Trick::UDPConnection::write (const std::string& message) {
     if (!_started)
         return -1;
 
-    char send_buf[message.length()+1];
-    strcpy (send_buf, message.c_str());
     socklen_t sock_size = sizeof(_remote_serv_addr);
 
-    return _system_interface->sendto(_socket, send_buf, message.length(), 0, (struct sockaddr *) &_remote_serv_addr, sock_size );
+    return _system_interface->sendto(_socket, message.data(), message.length(), 0, (struct sockaddr *) &_remote_serv_addr, sock_size );
 }
 
 int Trick::UDPConnection::read  (std::string& message, int max_len) {
-- 
2.43.0


From b1fc9eed1c44f8d8848799e80b4914ea46906cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:40 +0000
Subject: [PATCH 32/69] fix: discard datagrams without a complete command
 instead of reading them forever

---
 .../trick_utils/connection_handlers/MulticastGroup.cpp         | 3 +++
 trick_source/trick_utils/connection_handlers/UDPConnection.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/trick_source/trick_utils/connection_handlers/MulticastGroup.cpp b/trick_source/trick_utils/connection_handlers/MulticastGroup.cpp
index 9039e95..fd482ef 100644
--- a/trick_source/trick_utils/connection_handlers/MulticastGroup.cpp
+++ b/trick_source/trick_utils/connection_handlers/MulticastGroup.cpp
@@ -155,6 +155,7 @@ int Trick::MulticastGroup::read  (std::string& message, int max_len) {
     int nbytes = _system_interface->recvfrom( _socket, incoming_msg, max_len, MSG_PEEK,(struct sockaddr *)&s_in, &sock_size ) ;
 
     if (nbytes == 0 ) {
+        _system_interface->recvfrom( _socket, incoming_msg, max_len, 0, NULL, NULL ) ;
         return 0;
     }
 
@@ -187,6 +188,8 @@ int Trick::MulticastGroup::read  (std::string& message, int max_len) {
         int size = last_newline - incoming_msg + 1;
         nbytes = _system_interface->recvfrom( _socket, incoming_msg, size, 0 , 0, 0) ;
     } else {
+        /* the rest of a datagram can not follow. discard it, or it hides all datagrams behind it */
+        _system_interface->recvfrom( _socket, incoming_msg, max_len, 0, NULL, NULL ) ;
         nbytes = 0 ;
     }
     
diff --git a/trick_source/trick_utils/connection_handlers/UDPConnection.cpp b/trick_source/trick_utils/connection_handlers/UDPConnection.cpp
index c8c3dbb..ebb5baa 100644
--- a/trick_source/trick_utils/connection_handlers/UDPConnection.cpp
+++ b/trick_source/trick_utils/connection_handlers/UDPConnection.cpp
@@ -122,6 +122,7 @@ int Trick::UDPConnection::read  (std::string& message, int max_len) {
     char incoming_msg[max_len + 1];
     int nbytes = _system_interface->recvfrom( _socket, incoming_msg, max_len, MSG_PEEK, NULL, NULL ) ;
     if (nbytes == 0 ) {
+        _system_interface->recvfrom( _socket, incoming_msg, max_len, 0, NULL, NULL ) ;
         return 0;
     }
 
@@ -148,6 +149,8 @@ int Trick::UDPConnection::read  (std::string& message, int max_len) {
         int size = last_newline - incoming_msg + 1;
         nbytes = _system_interface->recvfrom( _socket, incoming_msg, size, 0 , (struct sockaddr *) &_remote_serv_addr, &sock_size ) ;
     } else {
+        /* the rest of a datagram can not follow. discard it, or it hides all datagrams behind it */
+        _system_interface->recvfrom( _socket, incoming_msg, max_len, 0, NULL, NULL ) ;
         nbytes = 0 ;
     }
     
-- 
2.43.0


From 3c1c0706603c2a3e7e63a88060ed3028ae94a15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:46 +0000
Subject: [PATCH 33/69] fix: admit no client by a malformed network of the
 allowlist

---
 .../sim_services/VariableServer/VariableServer.cpp       | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/VariableServer/VariableServer.cpp b/trick_source/sim_services/VariableServer/VariableServer.cpp
index 0b8a6d2..7463190 100644
--- a/trick_source/sim_services/VariableServer/VariableServer.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServer.cpp
@@ -6,6 +6,7 @@
 #include "trick/tc_proto.h"
 
 #include <iostream>
+#include <stdlib.h>
 #include <netdb.h>
 
 Trick::VariableServer * the_vs ;
@@ -248,7 +249,13 @@ bool Trick::VariableServer::check_ip(const std::string& ip)
         if ((slash = entry.find('/')) != std::string::npos)
         {
             std::string network = entry.substr(0, slash);
-            int prefix          = std::stoi(entry.substr(slash + 1));
+            std::string length  = entry.substr(slash + 1);
+            char * end          = NULL;
+            long prefix         = strtol(length.c_str(), &end, 10);
+            if (length.empty() || *end != '\0' || prefix < 0 || prefix > 32)
+            {
+                continue;
+            }
 
             if (inet_pton(AF_INET, network.c_str(), &addr) != 1)
             {
-- 
2.43.0


From 7c99e73864ba37ac4d001363c936475d0aef94b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:11 +0000
Subject: [PATCH 34/69] fix: let session threads end or process commands while
 a checkpoint load waits for them to pause

---
 include/trick/SysThread.hh                          |  4 ++++
 trick_source/sim_services/ThreadBase/SysThread.cpp  | 13 ++++++++++++-
 .../VariableServer/VariableServerSessionThread.cpp  |  6 ++++--
 .../VariableServer/VariableServer_restart.cpp       |  9 ++++++---
 4 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/trick/SysThread.hh b/include/trick/SysThread.hh
index 1b6e905..c55d08c 100644
--- a/include/trick/SysThread.hh
+++ b/include/trick/SysThread.hh
@@ -38,6 +38,10 @@ namespace Trick {
 
             static int ensureAllShutdown();
 
+            using ThreadBase::thread_shutdown;
+            // Called from the sys_thread when it ends: nobody has to wait for it to pause anymore
+            virtual void thread_shutdown(void (*exit_handler) (void *), void * exit_arg);
+
         protected:
             // Called from the main thread
             void force_thread_to_pause();
diff --git a/trick_source/sim_services/ThreadBase/SysThread.cpp b/trick_source/sim_services/ThreadBase/SysThread.cpp
index f052379..fe143e3 100644
--- a/trick_source/sim_services/ThreadBase/SysThread.cpp
+++ b/trick_source/sim_services/ThreadBase/SysThread.cpp
@@ -109,4 +109,15 @@ void Trick::SysThread::test_pause() {
 
     _thread_has_paused = false;
     pthread_mutex_unlock(&_restart_pause_mutex) ;
-}
\ No newline at end of file
+}
+
+// To be called from this thread
+void Trick::SysThread::thread_shutdown(void (*exit_handler) (void *), void * exit_arg) {
+    // This thread does not touch any data that is restarted anymore: it counts as paused
+    pthread_mutex_lock(&_restart_pause_mutex) ;
+    _thread_has_paused = true;
+    pthread_cond_signal(&_thread_has_paused_cv);
+    pthread_mutex_unlock(&_restart_pause_mutex) ;
+
+    ThreadBase::thread_shutdown(exit_handler, exit_arg);
+}
diff --git a/trick_source/sim_services/VariableServer/VariableServerSessionThread.cpp b/trick_source/sim_services/VariableServer/VariableServerSessionThread.cpp
index a1108d2..afa610a 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSessionThread.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSessionThread.cpp
@@ -84,9 +84,9 @@ void Trick::VariableServerSessionThread::preload_checkpoint() {
     force_thread_to_pause();
 
 
-    // Make sure that the _session has been initialized
+    // Make sure that the _session has been initialized and still exists
     pthread_mutex_lock(&_connection_status_mutex);
-    if (_connection_status == CONNECTION_SUCCESS) {
+    if (_connection_status == CONNECTION_SUCCESS && _session != NULL) {
 
         // Let the thread complete any data copying it has to do
         // and then suspend data copying until the checkpoint is reloaded.
@@ -126,9 +126,11 @@ void Trick::VariableServerSessionThread::restart() {
 void Trick::VariableServerSessionThread::cleanup() {
     _connection->disconnect();
 
+    pthread_mutex_lock(&_connection_status_mutex);
     if (_session != NULL) {
         delete _session;
         _session = NULL;
     }
+    pthread_mutex_unlock(&_connection_status_mutex);
 }
 
diff --git a/trick_source/sim_services/VariableServer/VariableServer_restart.cpp b/trick_source/sim_services/VariableServer/VariableServer_restart.cpp
index 46b62ac..c2cf84b 100644
--- a/trick_source/sim_services/VariableServer/VariableServer_restart.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServer_restart.cpp
@@ -33,12 +33,15 @@ int Trick::VariableServer::suspendPreCheckpointReload() {
         listen_it.second->pause_listening();
     }
 
-    // Suspend session threads
+    // Suspend session threads. This is done outside map_mutex on purpose: a thread
+    // takes map_mutex when it processes a command or exits, so waiting for its
+    // pause while holding map_mutex would deadlock.
     pthread_mutex_lock(&map_mutex) ;
-    for (const auto& vst_it : var_server_threads ) {    
+    std::map<pthread_t, VariableServerSessionThread*> threads = var_server_threads ;
+    pthread_mutex_unlock(&map_mutex) ;
+    for (const auto& vst_it : threads ) {
         vst_it.second->preload_checkpoint() ;
     }
-    pthread_mutex_unlock(&map_mutex) ;
 
     return 0;
 }
-- 
2.43.0


From e3be3af906d3cc99b50dbd0f3247f7d70d4663b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:34 +0000
Subject: [PATCH 35/69] fix: give MulticastGroup::restart its result

---
 trick_source/trick_utils/connection_handlers/MulticastGroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/trick_utils/connection_handlers/MulticastGroup.cpp b/trick_source/trick_utils/connection_handlers/MulticastGroup.cpp
index fd482ef..53b82e9 100644
--- a/trick_source/trick_utils/connection_handlers/MulticastGroup.cpp
+++ b/trick_source/trick_utils/connection_handlers/MulticastGroup.cpp
@@ -14,7 +14,7 @@ int Trick::MulticastGroup::restart () {
     // Keep address list the same, but we may need to get a new socket
     _system_interface = new SystemInterface();
     // return initialize();
-    // return 0;
+    return 0;
 }
 
 
-- 
2.43.0


From fb89c02f290366a5c29b94ddca5788f56eb1306e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:52 +0000
Subject: [PATCH 36/69] fix: give clients that connect during a checkpoint load
 a defined pause state

---
 .../sim_services/VariableServer/VariableServerSessionThread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/VariableServer/VariableServerSessionThread.cpp b/trick_source/sim_services/VariableServer/VariableServerSessionThread.cpp
index afa610a..83a996e 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSessionThread.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSessionThread.cpp
@@ -17,7 +17,7 @@ static int instance_num = 0;
 Trick::VariableServerSessionThread::VariableServerSessionThread() : VariableServerSessionThread (new VariableServerSession()) {}
 
 Trick::VariableServerSessionThread::VariableServerSessionThread(VariableServerSession * session) :
- Trick::SysThread(std::string("VarServer" + std::to_string(instance_num++))) , _debug(0), _session(session), _connection(NULL) {
+ Trick::SysThread(std::string("VarServer" + std::to_string(instance_num++))) , _debug(0), _session(session), _connection(NULL), _saved_pause_cmd(false) {
 
     _connection_status = CONNECTION_PENDING ;
 
-- 
2.43.0


From e4499967b7f19034cd78b2d89b1798bc9fe832f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:05 +0000
Subject: [PATCH 37/69] fix: follow every element of a multi-dimensional array
 of objects for checkpoints

The address of an element was computed with the number of the dimension
instead of its size, so that from the second row on other elements were
looked at: allocations only referred to there were left out of a checkpoint
of selected variables, and STL members were saved and restored in the wrong
element.
---
 .../sim_services/MemoryManager/MemoryManager_alloc_depends.cpp  | 2 +-
 .../MemoryManager/MemoryManager_get_stl_dependencies.cpp        | 2 +-
 .../sim_services/MemoryManager/MemoryManager_restore_stls.cpp   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_alloc_depends.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_alloc_depends.cpp
index acb927a..a0ee3e1 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_alloc_depends.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_alloc_depends.cpp
@@ -185,7 +185,7 @@ void Trick::MemoryManager::get_alloc_deps_in_arrayed_class(
                 get_alloc_deps_in_arrayed_class( address, attr, curr_dim + 1, offset * curr_dim_size + ii);
             } else {
                 char* elem_addr;
-                elem_addr = address + (offset * curr_dim + ii) * attr->size ;
+                elem_addr = address + (offset * curr_dim_size + ii) * attr->size ;
                 get_alloc_deps_in_class( elem_addr, (ATTRIBUTES*)attr->attr );
             }
         }
diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_get_stl_dependencies.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_get_stl_dependencies.cpp
index 8f111bc..2215f8a 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_get_stl_dependencies.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_get_stl_dependencies.cpp
@@ -135,7 +135,7 @@ void Trick::MemoryManager::get_stl_dependencies_in_arrayed_class(
                 get_stl_dependencies_in_arrayed_class( name + index, address, attr, curr_dim + 1, offset * curr_dim_size + ii);
             } else {
                 char* elem_addr;
-                elem_addr = address + (offset * curr_dim + ii) * attr->size ;
+                elem_addr = address + (offset * curr_dim_size + ii) * attr->size ;
                 get_stl_dependencies_in_class( name + index, elem_addr, (ATTRIBUTES*)attr->attr );
             }
         }
diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_restore_stls.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_restore_stls.cpp
index 49d0c80..dd15e0a 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_restore_stls.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_restore_stls.cpp
@@ -140,7 +140,7 @@ void Trick::MemoryManager::restore_stls_in_arrayed_class(
                 restore_stls_in_arrayed_class( name + index, address, attr, curr_dim + 1, offset * curr_dim_size + ii);
             } else {
                 char* elem_addr;
-                elem_addr = address + (offset * curr_dim + ii) * attr->size ;
+                elem_addr = address + (offset * curr_dim_size + ii) * attr->size ;
                 restore_stls_in_class( name + index, elem_addr, (ATTRIBUTES*)attr->attr );
             }
         }
-- 
2.43.0


From ddd9a5c2b603aec82d3bd17600aa14c23182c1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 38/69] fix: record how the memory of non-class variables was
 allocated

declare_var() stored an uninitialised allocation type for everything but
C++ classes, so that delete_var() freed the memory, or not, by chance.
---
 .../sim_services/MemoryManager/MemoryManager_declare_var.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_declare_var.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_declare_var.cpp
index 186a24c..0a72125 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_declare_var.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_declare_var.cpp
@@ -46,7 +46,7 @@ void* Trick::MemoryManager::declare_var( TRICK_TYPE type,
     char* allocation_name;
     int n_elems;
     Language language;
-    TRICK_ALLOC_TYPE allocation_type;
+    TRICK_ALLOC_TYPE allocation_type = TRICK_ALLOC_MALLOC;
     void* address;
     ATTRIBUTES* sub_attr;
     ALLOC_INFO *new_alloc;
-- 
2.43.0


From 5a76aa6c47b50e9b24c98d4f06e7802a8ce9a62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 39/69] fix: leave an allocation alone when its new name is
 taken

set_name_at() gave the allocation the name of another variable before it
found that the name was taken, so that deleting it took the other variable
out of the name map, and it released mm_mutex twice.
---
 .../MemoryManager/MemoryManager_alloc_info_map.cpp             | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_alloc_info_map.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_alloc_info_map.cpp
index 03904c4..38c2ceb 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_alloc_info_map.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_alloc_info_map.cpp
@@ -30,7 +30,6 @@ int Trick::MemoryManager::set_name_at( void* addr , const char * name ) {
 
     ALLOC_INFO_MAP::iterator pos = alloc_info_map.find( addr);
     if (pos != alloc_info_map.end()) {
-        pos->second->name = strdup(name) ;
         pthread_mutex_lock(&mm_mutex);
         VARIABLE_MAP::iterator variable_pos;
         variable_pos = variable_map.find(name);
@@ -39,9 +38,9 @@ int Trick::MemoryManager::set_name_at( void* addr , const char * name ) {
             ss << "Call to set_name_at() failed because a variable named \""
                << name << "\" already exists.";
             emitError(ss.str());
-            pthread_mutex_unlock(&mm_mutex);
             ret = -1 ;
         } else {
+            pos->second->name = strdup(name) ;
             variable_map[name] = pos->second ;
         }
         pthread_mutex_unlock(&mm_mutex);
-- 
2.43.0


From 581e6f45fc5ab86a4672195e39f9016014eba916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:29 +0000
Subject: [PATCH 40/69] fix: look up and remove a deleted allocation under one
 lock

Between looking up the record and removing it another thread could change
the map under the search, or delete the same address, which freed it twice.
---
 .../MemoryManager_delete_var.cpp              | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_delete_var.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_delete_var.cpp
index 008485b..3955da6 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_delete_var.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_delete_var.cpp
@@ -18,20 +18,19 @@ int Trick::MemoryManager::delete_var(void* address ) {
         return 1;
     }
 
+    // BEGIN PROTECTION of the alloc_info_map.
+    pthread_mutex_lock(&mm_mutex);
     // Find the allocation record for this address.
     ALLOC_INFO * alloc_info = get_alloc_info_at( address);
+    /*
+       Remove the allocation from the map first so we don't have trouble
+       if io_src_destruct_class or io_src_delete_class calls delete_var recursively.
+     */
+    alloc_info_map.erase( address);
+    // END PROTECTION of the alloc_info_map.
+    pthread_mutex_unlock(&mm_mutex);
 
     if ((alloc_info != NULL)) {
-        /*
-           Remove the allocation from the map first so we don't have trouble
-           if io_src_destruct_class or io_src_delete_class calls delete_var recursively.
-         */
-        // BEGIN PROTECTION of the alloc_info_map.
-        pthread_mutex_lock(&mm_mutex);
-        alloc_info_map.erase( address);
-        // END PROTECTION of the alloc_info_map.
-        pthread_mutex_unlock(&mm_mutex);
-
         /* Verify that it's OK to free the memory at the given address.
            It's OK if an allocation record exists for this address and the
            MemoryManager allocated it.
-- 
2.43.0


From 34644aa5ae9ddabdd286d808dc25494c54b8d948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:39 +0000
Subject: [PATCH 41/69] fix: find arrays allocated by operator new[] when
 memory is cleared or deleted

Such an array is registered under the address of its memory, but its objects
start after the sentinel bytes. Clearing or resetting the memory, and deleting
a variable by name, looked for the address of the objects and missed it.
---
 .../MemoryManager/MemoryManager_clear_memory.cpp          | 8 +++-----
 .../MemoryManager/MemoryManager_delete_var.cpp            | 2 +-
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_clear_memory.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_clear_memory.cpp
index c6f8472..7a0f01f 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_clear_memory.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_clear_memory.cpp
@@ -269,7 +269,7 @@ void Trick::MemoryManager::clear_var( const char* name) {
 
     if (pos != variable_map.end()) {
         alloc_info = pos->second;
-        clear_var_critical_section( alloc_info->start);
+        clear_var_critical_section( (char*)alloc_info->start - alloc_info->sentinel_bytes);
     } else {
         std::stringstream message;
         message << "Can't clear variable \"" << name
@@ -283,12 +283,10 @@ void Trick::MemoryManager::clear_var( const char* name) {
 void Trick::MemoryManager::clear_all_vars() {
 
     ALLOC_INFO_MAP::iterator pos;
-    ALLOC_INFO* alloc_info;
 
     pthread_mutex_lock(&mm_mutex);
     for (pos=alloc_info_map.begin() ; pos!=alloc_info_map.end() ; pos++ ) {
-        alloc_info = pos->second;
-        clear_var_critical_section( alloc_info->start);
+        clear_var_critical_section( pos->first);
     }
     pthread_mutex_unlock(&mm_mutex);
 }
@@ -311,7 +309,7 @@ void Trick::MemoryManager::reset_memory() {
         alloc_info = pos->second;
 
         if (alloc_info->stcl == TRICK_LOCAL) {
-            deletion_list.push_back( alloc_info->start);
+            deletion_list.push_back( pos->first);
         }
     }
     pthread_mutex_unlock(&mm_mutex);
diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_delete_var.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_delete_var.cpp
index 3955da6..b0acf25 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_delete_var.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_delete_var.cpp
@@ -120,7 +120,7 @@ int Trick::MemoryManager::delete_var( std::string name) {
         alloc_info = pos->second;
 
         pthread_mutex_unlock(&mm_mutex);
-        return( delete_var( alloc_info->start));
+        return( delete_var( (char*)alloc_info->start - alloc_info->sentinel_bytes));
     } else {
         std::stringstream message;
         message << "Cannot delete variable \"" << name
-- 
2.43.0


From 3ca9b9a8f10b7a47e7c6998d34ca78406027df20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:39 +0000
Subject: [PATCH 42/69] fix: return an empty directory name while there is no
 Sie object

---
 trick_source/sim_services/Sie/sie_c_intf.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trick_source/sim_services/Sie/sie_c_intf.cpp b/trick_source/sim_services/Sie/sie_c_intf.cpp
index f865b1b..06d44f9 100644
--- a/trick_source/sim_services/Sie/sie_c_intf.cpp
+++ b/trick_source/sim_services/Sie/sie_c_intf.cpp
@@ -38,5 +38,6 @@ extern "C" std::string sie_get_runtime_sie_dir(void) {
     if ( the_sie != NULL ) {
         return the_sie->get_runtime_sie_dir() ;
     }
+    return std::string() ;
 }
 
-- 
2.43.0


From 0dd28102e13e9deee0a286409871dd0ff89f9e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:27 +0000
Subject: [PATCH 43/69] fix: combine only the enabled conditions of an event
 when its first condition is disabled

---
 trick_source/sim_services/InputProcessor/IPPythonEvent.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/InputProcessor/IPPythonEvent.cpp b/trick_source/sim_services/InputProcessor/IPPythonEvent.cpp
index c822ddf..68be315 100644
--- a/trick_source/sim_services/InputProcessor/IPPythonEvent.cpp
+++ b/trick_source/sim_services/InputProcessor/IPPythonEvent.cpp
@@ -543,6 +543,7 @@ bool Trick::IPPythonEvent::process_user_event( long long curr_time ) {
     int ii ;
     int return_val ;
     bool it_fired, it_ran;
+    bool first_enabled = true;
 
     fired = false ;
     ran = false ;
@@ -593,7 +594,8 @@ bool Trick::IPPythonEvent::process_user_event( long long curr_time ) {
                 }
             } // end evaluate condition
             /** @li If cond_all is true, only set event fired/hold after all enabled conditions evaluated. */
-            if (ii==0) {
+            if (first_enabled) {
+                first_enabled = false ;
                 fired = condition_list[ii]->fired ;
                 hold  = condition_list[ii]->hold ;
             }  else {
-- 
2.43.0


From ca98e541d896d87c3e49b934858aa5350667e885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:33 +0000
Subject: [PATCH 44/69] fix: rescale the times and cycles of events exactly
 when the time tic value changes

---
 trick_source/sim_services/EventManager/EventManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/EventManager/EventManager.cpp b/trick_source/sim_services/EventManager/EventManager.cpp
index a3d1856..430993d 100644
--- a/trick_source/sim_services/EventManager/EventManager.cpp
+++ b/trick_source/sim_services/EventManager/EventManager.cpp
@@ -257,7 +257,8 @@ int Trick::EventManager::time_tic_changed() {
     tt = exec_get_time_tic_value() ;
 
     for ( ii = 0 ; ii < num_active_events ; ii++ ) {
-        active_events[ii]->set_next_tics((long long)round((active_events[ii]->get_next_tics() / old_tt) * tt)) ;
+        active_events[ii]->set_next_tics((long long)round((double)active_events[ii]->get_next_tics() / old_tt * tt)) ;
+        active_events[ii]->set_cycle(active_events[ii]->get_cycle()) ;
     }
 
     return 0 ;
-- 
2.43.0


From 0b54ee1f1c2f7d932208f9d63cfa51dee17c40cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:48 +0000
Subject: [PATCH 45/69] fix: do not let an event condition that fails to parse,
 or another thread, use a previous condition's value

---
 trick_source/sim_services/InputProcessor/IPPython.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/InputProcessor/IPPython.cpp b/trick_source/sim_services/InputProcessor/IPPython.cpp
index 0f7fbc8..c285753 100644
--- a/trick_source/sim_services/InputProcessor/IPPython.cpp
+++ b/trick_source/sim_services/InputProcessor/IPPython.cpp
@@ -260,8 +260,9 @@ int Trick::IPPython::parse_condition(std::string in_string, int & cond_return_va
     {
         GILGuard gil_guard;
         py_ret = PyRun_SimpleString(in_string.c_str());
+        // return_val is shared by all threads, take it while the GIL is held. It was not set if there was an error.
+        cond_return_val = ( py_ret == 0 ) ? return_val : 0 ;
     }
-    cond_return_val = return_val ;
 
     return py_ret ;
 
-- 
2.43.0


From a5b4dda22db258fabde125d5d2744e6ff8b99e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:58 +0000
Subject: [PATCH 46/69] fix: forget removed events, and those of before a
 checkpoint, also while they are pending

---
 trick_source/sim_services/EventManager/EventProcessor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trick_source/sim_services/EventManager/EventProcessor.cpp b/trick_source/sim_services/EventManager/EventProcessor.cpp
index 1ee3fa1..a229076 100644
--- a/trick_source/sim_services/EventManager/EventProcessor.cpp
+++ b/trick_source/sim_services/EventManager/EventProcessor.cpp
@@ -7,6 +7,7 @@
    PROGRAMMERS: ( Alex Lin NASA 2014 )
 */
 
+#include <algorithm>
 #include <iostream>
 
 #include "trick/EventProcessor.hh"
@@ -36,6 +37,8 @@ void Trick::EventProcessor::remove_event(Trick::Event * in_event) {
             break;
         }
     }
+    // The event may not have been moved to the event set yet.
+    pending_events.erase(std::remove(pending_events.begin(), pending_events.end(), in_event), pending_events.end()) ;
     if ( !event_set.empty() ) {
         process_event_job->next_tics = (*(event_set.begin()))->get_next_tics() ;
     } else {
@@ -111,4 +114,5 @@ int Trick::EventProcessor::process_event( long long curr_tics ) {
 
 void Trick::EventProcessor::preload_checkpoint() {
     event_set.clear() ;
+    pending_events.clear() ;
 }
-- 
2.43.0


From 060f3039ce56c6c867d7d1d2bee323f40594d7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:58 +0000
Subject: [PATCH 47/69] fix: allow removing an event whose thread does not
 exist

---
 trick_source/sim_services/EventManager/EventManager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/EventManager/EventManager.cpp b/trick_source/sim_services/EventManager/EventManager.cpp
index 430993d..7efe325 100644
--- a/trick_source/sim_services/EventManager/EventManager.cpp
+++ b/trick_source/sim_services/EventManager/EventManager.cpp
@@ -193,7 +193,9 @@ int Trick::EventManager::remove_event(Trick::Event * in_event) {
 
     if ( in_event->get_before_after() == Trick::EVENT_NOTARGET ) {
         /* If the event is cyclic, remove the event from the event processor on the event's thread */
-        event_processors[in_event->get_thread()]->remove_event(in_event) ;
+        if (in_event->get_thread() < event_processors.size() ) {
+            event_processors[in_event->get_thread()]->remove_event(in_event) ;
+        }
     } else {
         std::vector< Trick::EventInstrument * >::iterator ei_it ;
         for ( ei_it = events_instrumented.begin() ; ei_it != events_instrumented.end() ; ) {
-- 
2.43.0


From a56ef65c9faf9d6fb1977173dbc70050673b64c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:37 +0000
Subject: [PATCH 48/69] fix: reschedule the processing of events when the time
 tic value changes

---
 include/trick/EventProcessor.hh                           | 5 +++++
 trick_source/sim_services/EventManager/EventManager.cpp   | 3 +++
 trick_source/sim_services/EventManager/EventProcessor.cpp | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/include/trick/EventProcessor.hh b/include/trick/EventProcessor.hh
index 9d98107..4b9e7a0 100644
--- a/include/trick/EventProcessor.hh
+++ b/include/trick/EventProcessor.hh
@@ -65,6 +65,11 @@ namespace Trick {
             */
             int process_event( long long curr_time ) ;
 
+            /**
+             @brief Sets the next call time of the process_event job to the time of the earliest event
+            */
+            void set_process_event_job_time() ;
+
             /**
              @brief Clears the event set before a checkpoint is loaded
             */
diff --git a/trick_source/sim_services/EventManager/EventManager.cpp b/trick_source/sim_services/EventManager/EventManager.cpp
index 7efe325..8f51481 100644
--- a/trick_source/sim_services/EventManager/EventManager.cpp
+++ b/trick_source/sim_services/EventManager/EventManager.cpp
@@ -262,6 +262,9 @@ int Trick::EventManager::time_tic_changed() {
         active_events[ii]->set_next_tics((long long)round((double)active_events[ii]->get_next_tics() / old_tt * tt)) ;
         active_events[ii]->set_cycle(active_events[ii]->get_cycle()) ;
     }
+    for ( ii = 0 ; ii < event_processors.size() ; ii++ ) {
+        event_processors[ii]->set_process_event_job_time() ;
+    }
 
     return 0 ;
 }
diff --git a/trick_source/sim_services/EventManager/EventProcessor.cpp b/trick_source/sim_services/EventManager/EventProcessor.cpp
index a229076..d71f0c8 100644
--- a/trick_source/sim_services/EventManager/EventProcessor.cpp
+++ b/trick_source/sim_services/EventManager/EventProcessor.cpp
@@ -39,6 +39,10 @@ void Trick::EventProcessor::remove_event(Trick::Event * in_event) {
     }
     // The event may not have been moved to the event set yet.
     pending_events.erase(std::remove(pending_events.begin(), pending_events.end(), in_event), pending_events.end()) ;
+    set_process_event_job_time() ;
+}
+
+void Trick::EventProcessor::set_process_event_job_time() {
     if ( !event_set.empty() ) {
         process_event_job->next_tics = (*(event_set.begin()))->get_next_tics() ;
     } else {
-- 
2.43.0


From 5ae2df4034d7311c817260fe3722f5deca347500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:27 +0000
Subject: [PATCH 49/69] fix: round the cycle of an event to the time tics it is
 given in

---
 include/trick/Event.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/trick/Event.hh b/include/trick/Event.hh
index d54dd0f..a03fc8a 100644
--- a/include/trick/Event.hh
+++ b/include/trick/Event.hh
@@ -5,6 +5,7 @@
 */
 #include <string>
 #include <iostream>
+#include <math.h>
 #include "trick/mm_macros.hh"
 #include "trick/exec_proto.h"
 
@@ -103,7 +104,7 @@ class Event {
          @code <event_object>.set_cycle(<rate>) @endcode
          @return always 0
         */
-        void set_cycle(double rate) { cycle = rate ; cycle_tics = (long long)(cycle * exec_get_time_tic_value()) ; } ;
+        void set_cycle(double rate) { cycle = rate ; cycle_tics = (long long)round(cycle * exec_get_time_tic_value()) ; } ;
 
         /**
          @brief Gets the current event cycle in seconds
-- 
2.43.0


From 293c4ece61891aa6b776845c16c7a89f98906a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:00 +0000
Subject: [PATCH 50/69] fix: never use composed text as the format of a message

---
 include/trick/mc_variable_semi_fixed.hh       |  2 +-
 .../ClassicCheckPointAgent.cpp                | 12 +++++-----
 .../DataRecord/DataRecordDispatcher.cpp       |  4 ++--
 .../src/MultiDtIntegLoopScheduler.cpp         |  2 +-
 .../sim_services/MasterSlave/Master.cpp       |  2 +-
 .../sim_services/Message/Message_c_intf.cpp   |  6 ++---
 .../MonteCarloGeneration/mc_master.cc         | 22 +++++++++----------
 .../MonteCarloGeneration/mc_variable.cc       |  4 ++--
 .../MonteCarloGeneration/mc_variable_file.cc  | 12 +++++-----
 .../mc_variable_random_normal.cc              | 14 ++++++------
 .../mc_variable_random_string.cc              |  2 +-
 .../RealtimeSync/RealtimeSync.cpp             |  2 +-
 .../VariableServer/VariableReference.cpp      |  2 +-
 .../VariableServer/VariableServer.cpp         |  4 ++--
 .../VariableServerSessionThread_loop.cpp      |  2 +-
 15 files changed, 46 insertions(+), 46 deletions(-)

diff --git a/include/trick/mc_variable_semi_fixed.hh b/include/trick/mc_variable_semi_fixed.hh
index cde702e..65b680e 100644
--- a/include/trick/mc_variable_semi_fixed.hh
+++ b/include/trick/mc_variable_semi_fixed.hh
@@ -65,7 +65,7 @@ class MonteCarloVariableSemiFixed : public MonteCarloVariable
           std::string(" the necessary pre-dispersion to obtain the\n "
           "random value for assignment has not been completed.\nCannot "
           "generate the assignment for this variable.\n");
-        message_publish(MSG_ERROR, message.c_str());
+        message_publish(MSG_ERROR, "%s", message.c_str());
         return;
       }
       assignment = seed_command.substr(pos_equ+1);
diff --git a/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp b/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
index 3093c14..96ad945 100644
--- a/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
+++ b/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
@@ -325,7 +325,7 @@ std::string Trick::ClassicCheckPointAgent::get_var_name( void* addr,
           std::stringstream ss;
           ss << "Checkpoint Agent ERROR: Unable to create a subreference of variable \"" << name << "\"."
              << std::endl;
-          message_publish(MSG_ERROR, ss.str().c_str() );
+          message_publish(MSG_ERROR, "%s", ss.str().c_str() );
     }
     return (var_name);
 }
@@ -344,7 +344,7 @@ int Trick::ClassicCheckPointAgent::restore( std::istream* checkpoint_stream) {
         ss << "Checkpoint Agent ERROR: " << context->bad_declaration_count << " invalid declaration(s) "
            << "and " << context->bad_assignment_count << " invalid assignment(s)."
            << std::endl;
-        message_publish(MSG_ERROR, ss.str().c_str() );
+        message_publish(MSG_ERROR, "%s", ss.str().c_str() );
         status = 1;
     }
 
@@ -352,7 +352,7 @@ int Trick::ClassicCheckPointAgent::restore( std::istream* checkpoint_stream) {
         std::stringstream ss;
         ss << "Checkpoint Agent ERROR: Checkpoint restore failed."
            << std::endl;
-        message_publish(MSG_INFO, ss.str().c_str() );
+        message_publish(MSG_INFO, "%s", ss.str().c_str() );
         mem_mgr->set_checkpoint_restore_state(false);
     }
     else
@@ -815,7 +815,7 @@ std::string Trick::ClassicCheckPointAgent::
                             ss << "Checkpoint Agent ERROR: The name of the allocation at " << alloc_info->start << " is NULL."
                                << "Therefore, Trick::ClassicCheckPointAgent::ref_string_from_ptr() can't generate a textual reference to it."
                                << std::endl;
-                            message_publish(MSG_ERROR, ss.str().c_str() );
+                            message_publish(MSG_ERROR, "%s", ss.str().c_str() );
                             reference_string = "ERROR - Allocation name is NULL";
                         }
 
@@ -849,7 +849,7 @@ std::string Trick::ClassicCheckPointAgent::
                     ss << "Checkpoint Agent ERROR: The name of the allocation at " << alloc_info->start << " is NULL."
                        << "Therefore, Trick::ClassicCheckPointAgent::ref_string_from_ptr() can't generate a textual reference to it."
                        << std::endl;
-                    message_publish(MSG_ERROR, ss.str().c_str() );
+                    message_publish(MSG_ERROR, "%s", ss.str().c_str() );
                     reference_string = "ERROR - Allocation name is NULL";
                 }
             } else { // The type specifications don't match, and the right hand side is not structured
@@ -877,7 +877,7 @@ std::string Trick::ClassicCheckPointAgent::
                             ss << "Checkpoint Agent ERROR: The name of the allocation at " << alloc_info->start << " is NULL."
                                << "Therefore, Trick::ClassicCheckPointAgent::ref_string_from_ptr() can't generate a textual reference to it."
                                << std::endl;
-                            message_publish(MSG_ERROR, ss.str().c_str() );
+                            message_publish(MSG_ERROR, "%s", ss.str().c_str() );
                             reference_string = "ERROR - Allocation name is NULL";
                         }
 
diff --git a/trick_source/sim_services/DataRecord/DataRecordDispatcher.cpp b/trick_source/sim_services/DataRecord/DataRecordDispatcher.cpp
index 7f5ceda..e95b627 100644
--- a/trick_source/sim_services/DataRecord/DataRecordDispatcher.cpp
+++ b/trick_source/sim_services/DataRecord/DataRecordDispatcher.cpp
@@ -416,7 +416,7 @@ void Trick::DataRecordDispatcher::checkMultiVarSingleLogGroup(bool & isLoggedMul
                         }
                         ss << " is being logged twice in the data recording group \"" << drGroup->group_name << "\" ."
                             << std::endl;
-                        message_publish(MSG_ERROR, ss.str().c_str());
+                        message_publish(MSG_ERROR, "%s", ss.str().c_str());
                     }
                 }
             }
@@ -464,7 +464,7 @@ void Trick::DataRecordDispatcher::checkMultiVarMultiLogGroups(bool & isLoggedMul
                         }
                         ss << " is being logged in both \"" << drGroupOne->group_name << "\" and \""
                             << drGroupTwo->group_name << "\" data recording groups." << std::endl;
-                        message_publish(MSG_ERROR, ss.str().c_str());
+                        message_publish(MSG_ERROR, "%s", ss.str().c_str());
                     }
                     result = std::find_if(++result, drGroupTwo->rec_buffer.end(), nameCompare);
                 }
diff --git a/trick_source/sim_services/Integrator/src/MultiDtIntegLoopScheduler.cpp b/trick_source/sim_services/Integrator/src/MultiDtIntegLoopScheduler.cpp
index d84d366..cdd259c 100644
--- a/trick_source/sim_services/Integrator/src/MultiDtIntegLoopScheduler.cpp
+++ b/trick_source/sim_services/Integrator/src/MultiDtIntegLoopScheduler.cpp
@@ -127,7 +127,7 @@ int MultiDtIntegLoopScheduler::integrate()
             }
         }
         ss << std::endl;
-        message_publish(MSG_DEBUG, ss.str().c_str());
+        message_publish(MSG_DEBUG, "%s", ss.str().c_str());
     }
 
     double var_next_cycle = (double)(t_end_tics - t_start_tics)/ (double)Trick::JobData::time_tic_value;
diff --git a/trick_source/sim_services/MasterSlave/Master.cpp b/trick_source/sim_services/MasterSlave/Master.cpp
index f397628..c6583ca 100644
--- a/trick_source/sim_services/MasterSlave/Master.cpp
+++ b/trick_source/sim_services/MasterSlave/Master.cpp
@@ -168,7 +168,7 @@ int Trick::SlaveInfo::start() {
     /* @li start the remote command in the background */
     startup_command << "' &"  ;
 
-    message_publish(MSG_INFO, startup_command.str().c_str()) ;
+    message_publish(MSG_INFO, "%s", startup_command.str().c_str()) ;
 
     /* @li Execute the startup command */
     if (system(startup_command.str().c_str())) {
diff --git a/trick_source/sim_services/Message/Message_c_intf.cpp b/trick_source/sim_services/Message/Message_c_intf.cpp
index 60aec2d..d9a6c75 100644
--- a/trick_source/sim_services/Message/Message_c_intf.cpp
+++ b/trick_source/sim_services/Message/Message_c_intf.cpp
@@ -86,7 +86,7 @@ extern "C" int message_publish(int level, const char * format_msg, ...) {
         the_message_publisher->publish(level, msg_buf) ;
     } else {
         // if we don't have a message publisher, simply print message to terminal
-        message_publish_standalone(level, msg_buf) ;
+        message_publish_standalone(level, "%s", msg_buf) ;
     }
 
     return (0);
@@ -102,7 +102,7 @@ extern "C" int vmessage_publish(int level, const char * format_msg, va_list args
         the_message_publisher->publish(level, msg_buf) ;
     } else {
         // if we don't have a message publisher, simply print message to terminal
-        message_publish_standalone(level, msg_buf) ;
+        message_publish_standalone(level, "%s", msg_buf) ;
     }
 
     return (0);
@@ -125,7 +125,7 @@ extern "C" int send_hs(FILE * fp __attribute__ ((unused)), const char * format_m
     (void) vsnprintf(msg_buf, MAX_MSG_SIZE, format_msg, args);
     va_end(args);
 
-    message_publish(0, msg_buf) ;
+    message_publish(0, "%s", msg_buf) ;
 
     return (0);
 }
diff --git a/trick_source/sim_services/MonteCarloGeneration/mc_master.cc b/trick_source/sim_services/MonteCarloGeneration/mc_master.cc
index 488a0ae..4854c0b 100644
--- a/trick_source/sim_services/MonteCarloGeneration/mc_master.cc
+++ b/trick_source/sim_services/MonteCarloGeneration/mc_master.cc
@@ -66,7 +66,7 @@ MonteCarloMaster::prepare_input_files()
       "generate a set of input files, but this action has\nalready been "
       "completed. Keeping the original set of input files.\nIgnoring "
       "the later instruction.\n";
-    message_publish(MSG_ERROR, message.c_str());
+    message_publish(MSG_ERROR, "%s", message.c_str());
     return true;
   }
 
@@ -106,7 +106,7 @@ MonteCarloMaster::prepare_input_files()
         std::to_string(__LINE__) + ", I/O error\nUnable to open the " +
         "variable summary files for writing.\nDispersion summary will not " +
         "be generated.\n";
-      message_publish(MSG_ERROR, message.c_str());
+      message_publish(MSG_ERROR, "%s", message.c_str());
       generate_summary = false;
     }
     else {
@@ -145,7 +145,7 @@ MonteCarloMaster::prepare_input_files()
         "filename with a run-number that exceeds the\npre-generated size " +
         "(e.g. trying to fit the number 10000 into 4 characters.\nThis " +
         "should never happen.\n";
-      message_publish(MSG_ERROR, message.c_str());
+      message_publish(MSG_ERROR, "%s", message.c_str());
       exec_terminate_with_return(1, __FILE__, __LINE__, message.c_str());
     }
     // else
@@ -165,7 +165,7 @@ MonteCarloMaster::prepare_input_files()
         std::string("File: ") + __FILE__ + ", Line: " +
         std::to_string(__LINE__) + ", I/O error\nUnable to open file " + 
         filename.c_str() + " for writing.";
-      message_publish(MSG_ERROR, message.c_str());
+      message_publish(MSG_ERROR, "%s", message.c_str());
       exec_terminate_with_return(1, __FILE__, __LINE__, message.c_str());
     }
 
@@ -207,7 +207,7 @@ MonteCarloMaster::prepare_input_files()
           std::string("File: ") + __FILE__ + ", Line: " + 
           std::to_string(__LINE__) + ", Output failure\nFailed to record " +
           "summary data for run " + run_num_str.c_str() + ".\n";
-        message_publish(MSG_ERROR, message.c_str());
+        message_publish(MSG_ERROR, "%s", message.c_str());
         generate_summary = false;
       }
     }
@@ -249,7 +249,7 @@ MonteCarloMaster::add_variable(
       run_name.c_str() + ", but the input files have already been " +
       "generated.\nCannot modify input files to accommodate this new " +
       "variable.\nAddition of variable rejected.\n";
-    message_publish(MSG_ERROR, message.c_str());
+    message_publish(MSG_ERROR, "%s", message.c_str());
     return;
   }
 
@@ -262,7 +262,7 @@ MonteCarloMaster::add_variable(
         "to add two settings for variable " + 
         variable.get_variable_name().c_str() + 
         ".\nTerminating to allow resolution of which setting to use.\n";
-      message_publish(MSG_ERROR, message.c_str());
+      message_publish(MSG_ERROR, "%s", message.c_str());
       exec_terminate_with_return(1, __FILE__, __LINE__, message.c_str());
     }
   }
@@ -319,7 +319,7 @@ MonteCarloMaster::find_variable( std::string var_name)
     std::to_string(__LINE__) + ", Invalid name\nCould not find MonteCarlo " +
     "variable with name " + var_name.c_str() + 
     ".\nReturning a NULL pointer.\n";
-  message_publish(MSG_ERROR, message.c_str());
+  message_publish(MSG_ERROR, "%s", message.c_str());
   return NULL;
 }
 
@@ -345,7 +345,7 @@ MonteCarloMaster::remove_variable( std::string var_name)
     std::to_string(__LINE__) + ", Invalid name\nAttempt to remove " +
     "MonteCarlo variable with name " + var_name.c_str() + " FAILED.\nDid " +
     "not find a variable with that name.\n";
-  message_publish(MSG_WARNING, message.c_str());
+  message_publish(MSG_WARNING, "%s", message.c_str());
 }
 
 
@@ -363,7 +363,7 @@ MonteCarloMaster::set_num_runs(
       std::to_string(__LINE__) + ", Invalid sequence\nAttempted to set the " +
       "number of runs to " + std::to_string(num_runs_) + ", but the " +
       "input files have\nalready been generated.";
-    message_publish(MSG_ERROR, message.c_str());
+    message_publish(MSG_ERROR, "%s", message.c_str());
   }
   else {
     num_runs = num_runs_;
@@ -428,7 +428,7 @@ MonteCarloMaster::collate_meta_data()
       std::string("File: ") + __FILE__ + ", Line: " +
       std::to_string(__LINE__) + ", I/O error\nUnable to open file " + 
       filename.c_str() + " for writing.\nAborting generation of meta-data.\n";
-    message_publish(MSG_WARNING, message.c_str());
+    message_publish(MSG_WARNING, "%s", message.c_str());
     return;
   }
 
diff --git a/trick_source/sim_services/MonteCarloGeneration/mc_variable.cc b/trick_source/sim_services/MonteCarloGeneration/mc_variable.cc
index b57f351..79d4fef 100644
--- a/trick_source/sim_services/MonteCarloGeneration/mc_variable.cc
+++ b/trick_source/sim_services/MonteCarloGeneration/mc_variable.cc
@@ -49,7 +49,7 @@ MonteCarloVariable::insert_units()
       ") but no command generated.\nThe command must be generated before " + 
       "applying units.Will attempt to generate the command to "
       "avoid terminal fault but this\nmay not be what was intended.\n";
-    message_publish(MSG_ERROR, message.c_str());
+    message_publish(MSG_ERROR, "%s", message.c_str());
   }
   // parse the command
   size_t pos_equ = command.find("=");
@@ -63,7 +63,7 @@ MonteCarloVariable::insert_units()
       std::to_string(__LINE__) + " Invalid command\nFor variable " + 
       variable_name.c_str() + ", the command is poorly formed.\nCannot " +
       "apply units to this command.\n";
-    message_publish(MSG_ERROR, message.c_str());
+    message_publish(MSG_ERROR, "%s", message.c_str());
     exec_terminate_with_return(1, __FILE__, __LINE__, message.c_str());
     return;
   }
diff --git a/trick_source/sim_services/MonteCarloGeneration/mc_variable_file.cc b/trick_source/sim_services/MonteCarloGeneration/mc_variable_file.cc
index e4eca0a..87ed287 100644
--- a/trick_source/sim_services/MonteCarloGeneration/mc_variable_file.cc
+++ b/trick_source/sim_services/MonteCarloGeneration/mc_variable_file.cc
@@ -63,7 +63,7 @@ MonteCarloVariableFile::initialize_file()
       std::to_string(first_var->get_column_number()) + ", but that the " +
       "first\ncolumn was identified as having index " + 
       std::to_string(first_column_number) + ".\n";
-    message_publish(MSG_ERROR, message.c_str());
+    message_publish(MSG_ERROR, "%s", message.c_str());
     exec_terminate_with_return(1, __FILE__, __LINE__, message.c_str());
   }
 
@@ -76,7 +76,7 @@ MonteCarloVariableFile::initialize_file()
       std::to_string(__LINE__) + ", I/O error\nUnable to open file " +
       filename.c_str() + " for reading.\nRequired for variable " +
       variable_name.c_str() + ".\n";
-    message_publish(MSG_ERROR, message.c_str());
+    message_publish(MSG_ERROR, "%s", message.c_str());
     exec_terminate_with_return(1, __FILE__, __LINE__, message.c_str());
   }
   // Sanity check -- make sure the file has at least 1 line of data:
@@ -89,7 +89,7 @@ MonteCarloVariableFile::initialize_file()
         std::to_string(__LINE__) + " Invalid data file\nData file " + 
         filename.c_str() + " contains no recognized lines of data\n" +
         "Required for variable " + variable_name.c_str() + ".\n";
-      message_publish(MSG_ERROR, message.c_str());
+      message_publish(MSG_ERROR, "%s", message.c_str());
       exec_terminate_with_return(1, __FILE__, __LINE__, message.c_str());
     }
     std::getline( file, line);
@@ -138,7 +138,7 @@ MonteCarloVariableFile::register_dependent(
       "MonteCarloVariableFile for variable " + variable_name.c_str() + 
       ".\nThis is not a valid action.\nRegistration failed, exiting " +
       "without action.\n";
-      message_publish(MSG_ERROR, message.c_str());
+      message_publish(MSG_ERROR, "%s", message.c_str());
     return;
   }
   if (new_var->has_dependents()) {
@@ -150,7 +150,7 @@ MonteCarloVariableFile::register_dependent(
       new_var->get_variable_name().c_str() + " cannot be marked as " + 
       "dependent when it has dependencies of its own.\nThe dependency " +
       "hierarchy can only be one level deep.";
-    message_publish(MSG_ERROR, message.c_str());
+    message_publish(MSG_ERROR, "%s", message.c_str());
     exec_terminate_with_return(1, __FILE__, __LINE__, message.c_str());
   }
   if (new_var->max_skip != max_skip) {
@@ -163,7 +163,7 @@ MonteCarloVariableFile::register_dependent(
       "behavior of\n" + variable_name.c_str() + ",\nwhich " +
       "as a setting for the maximum number of lines to skip of " + 
       std::to_string(max_skip) + "\n";
-    message_publish(MSG_ERROR, message.c_str());
+    message_publish(MSG_ERROR, "%s", message.c_str());
   }
   dependents.push_back(new_var);
   new_var->is_dependent = true;
diff --git a/trick_source/sim_services/MonteCarloGeneration/mc_variable_random_normal.cc b/trick_source/sim_services/MonteCarloGeneration/mc_variable_random_normal.cc
index 60efe73..5cf83f8 100644
--- a/trick_source/sim_services/MonteCarloGeneration/mc_variable_random_normal.cc
+++ b/trick_source/sim_services/MonteCarloGeneration/mc_variable_random_normal.cc
@@ -54,7 +54,7 @@ MonteCarloVariableRandomNormal::generate_assignment()
         std::to_string(min_value) + ") >= the specified maximum allowable" +
         + " value (" + std::to_string(max_value) + ").\nOne or both of the" 
         " limits must be changed to generate a random value.\n";
-        message_publish(MSG_ERROR, message.c_str());
+        message_publish(MSG_ERROR, "%s", message.c_str());
       exec_terminate_with_return(1, __FILE__, __LINE__, message.c_str());
     }
     else if (Trick::dbl_is_near( min_value, max_value, 0.0)) {
@@ -65,7 +65,7 @@ MonteCarloVariableRandomNormal::generate_assignment()
         "allowable value and \nthe specified maximum allowable value are "
         "equal (" + std::to_string(min_value) + ").\nThe distribution " +
         " collapses  to a point.\n";
-      message_publish(MSG_WARNING, message.c_str());
+      message_publish(MSG_WARNING, "%s", message.c_str());
       assignment_d = min_value;
     }
   }
@@ -87,7 +87,7 @@ MonteCarloVariableRandomNormal::generate_assignment()
         std::to_string(max_num_tries) + ").\nAssuming a value equal to:\n" +
         " - midpoint value for a distribution truncated at both ends\n - " +
         "truncation value for a distribution truncated at only one end.\n";
-      message_publish(MSG_ERROR, message.c_str());
+      message_publish(MSG_ERROR, "%s", message.c_str());
       // Note - at least one truncation must be defined in order to be in
       // this part of the code.
       if (!truncated_high) { // i.e. truncated-low only
@@ -137,7 +137,7 @@ MonteCarloVariableRandomNormal::truncate(
       std::to_string(max_num_tries) + "\ntruncate() must receive either " +
       "two limits or one positive limit!\nUsing absolute value of limit." +
       "\nUsing absolute value of limit.\n";
-    message_publish(MSG_ERROR, message.c_str());
+    message_publish(MSG_ERROR, "%s", message.c_str());
     limit = -limit;
   }
 
@@ -148,7 +148,7 @@ MonteCarloVariableRandomNormal::truncate(
       std::to_string(__LINE__) + ",  Configuration error\nZero truncation " +
       "for specified for variable " + variable_name.c_str() + "  which " + 
       "will produce a fixed point\n";
-    message_publish(MSG_WARNING, message.c_str());
+    message_publish(MSG_WARNING, "%s", message.c_str());
   }
 
   // Assign the truncation on both sides:
@@ -197,7 +197,7 @@ MonteCarloVariableRandomNormal::truncate_low(
        std::to_string(__LINE__) + ", Invalid TruncationType\nInvalid " +
        "truncation type passed to truncate_low for variable " + 
        variable_name.c_str() + ".\nMinimum will not be applied.\n";
-     message_publish(MSG_ERROR, message.c_str());
+     message_publish(MSG_ERROR, "%s", message.c_str());
     return;
   }
   truncated_low = true;
@@ -227,7 +227,7 @@ MonteCarloVariableRandomNormal::truncate_high( double max,
       std::to_string(__LINE__) + ", Invalid TruncationType\nInvalid " +
       "truncation type passed to truncate_high for variable " + 
       variable_name.c_str() + ".\nMaximum will not be applied.\n";
-      message_publish(MSG_ERROR, message.c_str());
+      message_publish(MSG_ERROR, "%s", message.c_str());
     return;
   }
   truncated_high = true;
diff --git a/trick_source/sim_services/MonteCarloGeneration/mc_variable_random_string.cc b/trick_source/sim_services/MonteCarloGeneration/mc_variable_random_string.cc
index 6199e8b..dacc283 100644
--- a/trick_source/sim_services/MonteCarloGeneration/mc_variable_random_string.cc
+++ b/trick_source/sim_services/MonteCarloGeneration/mc_variable_random_string.cc
@@ -53,7 +53,7 @@ MonteCarloVariableRandomStringSet::generate_assignment()
     std::to_string(__LINE__) + ", No values for MonteCarloVariableRandomStringSet\n"
     "Length of values vector is zero for variable: " + variable_name + ", Did " +
     "you forget to call add_string()?\n";
-    message_publish(MSG_WARNING, message.c_str());
+    message_publish(MSG_WARNING, "%s", message.c_str());
   }
 }
 /*****************************************************************************
diff --git a/trick_source/sim_services/RealtimeSync/RealtimeSync.cpp b/trick_source/sim_services/RealtimeSync/RealtimeSync.cpp
index 32832aa..aac84d0 100644
--- a/trick_source/sim_services/RealtimeSync/RealtimeSync.cpp
+++ b/trick_source/sim_services/RealtimeSync/RealtimeSync.cpp
@@ -552,7 +552,7 @@ int Trick::RealtimeSync::shutdown() {
     }
     os <<  "         ACTUAL ELAPSED TIME: " ;
     os << std::fixed << std::setw(12) << std::setprecision(3) << actual_time << "\n" ;
-    message_publish(MSG_NORMAL,os.str().c_str()) ;
+    message_publish(MSG_NORMAL, "%s", os.str().c_str()) ;
 
     return(0) ;
 }
diff --git a/trick_source/sim_services/VariableServer/VariableReference.cpp b/trick_source/sim_services/VariableServer/VariableReference.cpp
index b69b2f1..fbb8e93 100644
--- a/trick_source/sim_services/VariableServer/VariableReference.cpp
+++ b/trick_source/sim_services/VariableServer/VariableReference.cpp
@@ -220,7 +220,7 @@ int Trick::VariableReference::setRequestedUnits(std::string units_name) {
     auto publish = [](MESSAGE_TYPE type, const std::string& message) {
         std::ostringstream oss;
         oss << "Variable Server: " << message << std::endl;
-        message_publish(type, oss.str().c_str());
+        message_publish(type, "%s", oss.str().c_str());
     };
 
     auto publishError = [&](const std::string& units) {
diff --git a/trick_source/sim_services/VariableServer/VariableServer.cpp b/trick_source/sim_services/VariableServer/VariableServer.cpp
index 7463190..e8426b5 100644
--- a/trick_source/sim_services/VariableServer/VariableServer.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServer.cpp
@@ -218,7 +218,7 @@ const std::set<std::string>& Trick::VariableServer::get_ip_allowlist() { return
 void Trick::VariableServer::add_ip(const std::string& ip)
 {
     std::string msg = "Trick VariableServer: Adding " + ip + " to the allowlist.\n";
-    message_publish(MSG_INFO, msg.c_str());
+    message_publish(MSG_INFO, "%s", msg.c_str());
 
     ip_allowlist.insert(ip);
 }
@@ -226,7 +226,7 @@ void Trick::VariableServer::add_ip(const std::string& ip)
 void Trick::VariableServer::remove_ip(const std::string& ip)
 {
     std::string msg = "Trick VariableServer: Removing " + ip + " from the allowlist.\n";
-    message_publish(MSG_INFO, msg.c_str());
+    message_publish(MSG_INFO, "%s", msg.c_str());
 
     ip_allowlist.erase(ip);
 }
diff --git a/trick_source/sim_services/VariableServer/VariableServerSessionThread_loop.cpp b/trick_source/sim_services/VariableServer/VariableServerSessionThread_loop.cpp
index 93064e5..a14e7d7 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSessionThread_loop.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSessionThread_loop.cpp
@@ -39,7 +39,7 @@ void * Trick::VariableServerSessionThread::thread_body() {
         if (!valid_ip)
         {
             std::string err_msg = "ILLEGAL IP CONNECTION ATTEMPTED: " + new_ip + "\n";
-            message_publish(MSG_ERROR, err_msg.c_str());
+            message_publish(MSG_ERROR, "%s", err_msg.c_str());
             status = CONNECTION_FAIL;
         }
     }
-- 
2.43.0


From 2962e0daa132bd4e9faa84d7874beb305619880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:12 +0000
Subject: [PATCH 51/69] fix: give messages the arguments their formats name

---
 trick_source/sim_services/DataRecord/DataRecordGroup.cpp      | 2 +-
 trick_source/sim_services/EventManager/EventManager.cpp       | 2 +-
 .../sim_services/Integrator/src/MultiDtIntegLoopScheduler.cpp | 4 ++--
 trick_source/sim_services/MasterSlave/Master.cpp              | 2 +-
 .../sim_services/MonteCarlo/MonteCarlo_slave_init.cpp         | 2 +-
 trick_source/sim_services/RealtimeInjector/RtiEvent.cpp       | 2 +-
 trick_source/sim_services/RealtimeInjector/RtiStager.cpp      | 2 +-
 .../sim_services/VariableServer/VariableServerSession.cpp     | 2 +-
 .../VariableServer/VariableServerSession_commands.cpp         | 2 +-
 .../VariableServer/VariableServerSession_write_data.cpp       | 4 ++--
 10 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
index 846c869..191a89a 100644
--- a/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
+++ b/trick_source/sim_services/DataRecord/DataRecordGroup.cpp
@@ -479,7 +479,7 @@ int Trick::DataRecordGroup::init(bool is_restart) {
                     "%16.12f, time_tic = %16.12f\n",
                     ii,
                     logging_rate,
-                    tic_value);
+                    (double)tic_value);
                 ret = -1;
             }
             long long cycle_tics = (long long)round(logging_rate * Trick::JobData::time_tic_value);
diff --git a/trick_source/sim_services/EventManager/EventManager.cpp b/trick_source/sim_services/EventManager/EventManager.cpp
index 8f51481..577abf1 100644
--- a/trick_source/sim_services/EventManager/EventManager.cpp
+++ b/trick_source/sim_services/EventManager/EventManager.cpp
@@ -80,7 +80,7 @@ int Trick::EventManager::add_event(Trick::Event * in_event) {
         event_processors[in_event->get_thread()]->add_event(in_event) ;
         in_event->add() ;
     } else {
-        message_publish(MSG_WARNING, "Event thread number is not in range: thread %d requested, only %d child threads in simulation.\n", in_event->get_thread() , event_processors.size() - 1) ;
+        message_publish(MSG_WARNING, "Event thread number is not in range: thread %d requested, only %zu child threads in simulation.\n", in_event->get_thread() , event_processors.size() - 1) ;
         ret = -1 ;
     }
 
diff --git a/trick_source/sim_services/Integrator/src/MultiDtIntegLoopScheduler.cpp b/trick_source/sim_services/Integrator/src/MultiDtIntegLoopScheduler.cpp
index cdd259c..7426002 100644
--- a/trick_source/sim_services/Integrator/src/MultiDtIntegLoopScheduler.cpp
+++ b/trick_source/sim_services/Integrator/src/MultiDtIntegLoopScheduler.cpp
@@ -238,7 +238,7 @@ int MultiDtIntegLoopScheduler::initialize_rates()
                             "%16.12f, time_tic = %16.12f\n",
                             ii,
                             integ_rate,
-                            tic_value);
+                            (double)tic_value);
             ret = -1;
         }
 
@@ -294,7 +294,7 @@ int MultiDtIntegLoopScheduler::set_integ_rate(const size_t rate_idx, const doubl
                             "%16.12f, time_tic = %16.12f\n",
 							rate_idx,
 							integRateIn,
-							exec_get_time_tic_value());
+							(double)exec_get_time_tic_value());
             return 1;
         }
 
diff --git a/trick_source/sim_services/MasterSlave/Master.cpp b/trick_source/sim_services/MasterSlave/Master.cpp
index c6583ca..fcee56e 100644
--- a/trick_source/sim_services/MasterSlave/Master.cpp
+++ b/trick_source/sim_services/MasterSlave/Master.cpp
@@ -293,7 +293,7 @@ int Trick::SlaveInfo::write_master_chkpnt_name(std::string full_path_name) {
     if ( activated == true ) {
         /** @li write the checkpoint dir/filename to the slave */
         if (full_path_name.length() > sizeof(chkpnt_name)-1) {
-            message_publish(MSG_ERROR, "Master could not send checkpoint name to slave because name too long (max = %d).\n",
+            message_publish(MSG_ERROR, "Master could not send checkpoint name to slave because name too long (max = %zu).\n",
                             sizeof(chkpnt_name)) ;
             chkpnt_name[0] = MS_ERROR_NAME; // send error character
         } else {
diff --git a/trick_source/sim_services/MonteCarlo/MonteCarlo_slave_init.cpp b/trick_source/sim_services/MonteCarlo/MonteCarlo_slave_init.cpp
index 78a2bc5..4fe323a 100644
--- a/trick_source/sim_services/MonteCarlo/MonteCarlo_slave_init.cpp
+++ b/trick_source/sim_services/MonteCarlo/MonteCarlo_slave_init.cpp
@@ -17,7 +17,7 @@ int Trick::MonteCarlo::slave_init() {
         if (mkdir(run_directory.c_str(), 0775) == -1) {
             if (verbosity >= MC_ERROR) {
                 message_publish(MSG_ERROR, "Monte [%s:%d] Unable to create directory %s.\nTerminating.\n",
-                            run_directory.c_str(), machine_name.c_str(), slave_id) ;
+                            machine_name.c_str(), slave_id, run_directory.c_str()) ;
             }
             exit(-1);
         }
diff --git a/trick_source/sim_services/RealtimeInjector/RtiEvent.cpp b/trick_source/sim_services/RealtimeInjector/RtiEvent.cpp
index bfa232e..e94fb82 100644
--- a/trick_source/sim_services/RealtimeInjector/RtiEvent.cpp
+++ b/trick_source/sim_services/RealtimeInjector/RtiEvent.cpp
@@ -11,7 +11,7 @@ void Trick::RtiEventBase::print_rti () {
     message_publish (MSG_NORMAL, "           num_index: %d\n", ref->num_index);
     message_publish (MSG_NORMAL, "               units: %s\n", ref->units);
     message_publish (MSG_NORMAL, "     pointer_present: %d\n", ref->pointer_present);
-    message_publish (MSG_NORMAL, "             address: %x\n", ref->address);
+    message_publish (MSG_NORMAL, "             address: %p\n", ref->address);
     message_publish (MSG_NORMAL, "                type: %s\n", ref->attr->type_name);
     message_publish (MSG_NORMAL, "               value: %s\n", print_val().c_str());
     message_publish (MSG_NORMAL, "--====================================--\n");
diff --git a/trick_source/sim_services/RealtimeInjector/RtiStager.cpp b/trick_source/sim_services/RealtimeInjector/RtiStager.cpp
index 2e5c2be..481c5a6 100644
--- a/trick_source/sim_services/RealtimeInjector/RtiStager.cpp
+++ b/trick_source/sim_services/RealtimeInjector/RtiStager.cpp
@@ -120,7 +120,7 @@ int Trick::RtiStager::AddtoList (Trick::RtiEventBase *rei ) {
         }
         list_map[pid]->event_list.push_back(rei) ;
         if ( debug ) {
-            message_publish(MSG_DEBUG, "%s:%s:%d Event List Size (%d)\n",
+            message_publish(MSG_DEBUG, "%s:%s:%d Event List Size (%zu)\n",
              __FILE__, __func__, __LINE__, list_map[pid]->event_list.size());
         }
     }
diff --git a/trick_source/sim_services/VariableServer/VariableServerSession.cpp b/trick_source/sim_services/VariableServer/VariableServerSession.cpp
index e932967..d8ed162 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSession.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSession.cpp
@@ -144,7 +144,7 @@ void Trick::VariableServerSession::log_received_message(const std::string& msg)
     }
 
     if (_debug >= 3) {
-        message_publish(MSG_DEBUG, "%p tag=<%s> var_server received bytes = msg_len = %d\n", _connection, _connection->getClientTag().c_str(), msg.size());
+        message_publish(MSG_DEBUG, "%p tag=<%s> var_server received bytes = msg_len = %zu\n", _connection, _connection->getClientTag().c_str(), msg.size());
     }
 
     if (_debug >= 1 || _info_msg) {
diff --git a/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp b/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp
index bf63794..db18a17 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSession_commands.cpp
@@ -51,7 +51,7 @@ int Trick::VariableServerSession::var_send_once(std::string in_name, int num_var
     std::vector<std::string> var_names = split(in_name, ',');
 
     if (var_names.size() != num_vars) {
-        message_publish(MSG_ERROR, "Number of variables sent to var_send_once (%d) does not match num_vars (%d).\n", var_names.size(), num_vars);
+        message_publish(MSG_ERROR, "Number of variables sent to var_send_once (%zu) does not match num_vars (%d).\n", var_names.size(), num_vars);
         return -1;
     }
 
diff --git a/trick_source/sim_services/VariableServer/VariableServerSession_write_data.cpp b/trick_source/sim_services/VariableServer/VariableServerSession_write_data.cpp
index f2a9408..013c362 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSession_write_data.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSession_write_data.cpp
@@ -114,7 +114,7 @@ int Trick::VariableServerSession::write_binary_data(const std::vector<VariableRe
         }
 
         if (_debug >= 2) {
-            message_publish(MSG_DEBUG, "%p tag=<%s> var_server sending %u binary bytes containing %d variables.\n",
+            message_publish(MSG_DEBUG, "%p tag=<%s> var_server sending %u binary bytes containing %zu variables.\n",
                             _connection, _connection->getClientTag().c_str(), curr_message_size, curr_message_vars.size());
         }
 
@@ -164,7 +164,7 @@ int Trick::VariableServerSession::write_ascii_data(const std::vector<VariableRef
                 message_publish(MSG_DEBUG, "%p tag=<%s> var_server buffer[%d] too small (need %d), sending multiple ascii packets.\n",
                                 _connection, _connection->getClientTag().c_str(), MAX_MSG_LEN, message_size + var_size + 2);
 
-                message_publish(MSG_DEBUG, "%p tag=<%s> var_server sending %d ascii bytes:\n%s\n",
+                message_publish(MSG_DEBUG, "%p tag=<%s> var_server sending %zu ascii bytes:\n%s\n",
                                 _connection, _connection->getClientTag().c_str(), message_size, message.c_str());
             }
 
-- 
2.43.0


From 1c7a03790e76904041d759011d59913692ec02d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:19 +0000
Subject: [PATCH 52/69] fix: delete system interfaces through a virtual
 destructor

---
 include/trick/SystemInterface.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/trick/SystemInterface.hh b/include/trick/SystemInterface.hh
index e05ced9..552f497 100644
--- a/include/trick/SystemInterface.hh
+++ b/include/trick/SystemInterface.hh
@@ -19,6 +19,7 @@
 
 class SystemInterface {
     public:
+        virtual ~SystemInterface() {}
         
         virtual int  socket (int domain, int type, int protocol) { return ::socket ( domain,  type,  protocol); }
         
-- 
2.43.0


From 6d1eab9f4cedf7161908d12c506f22d48434809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:03 +0000
Subject: [PATCH 53/69] fix: print message sizes with the formats of their
 types

---
 .../VariableServer/VariableServerSession_write_data.cpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trick_source/sim_services/VariableServer/VariableServerSession_write_data.cpp b/trick_source/sim_services/VariableServer/VariableServerSession_write_data.cpp
index 013c362..cab7305 100644
--- a/trick_source/sim_services/VariableServer/VariableServerSession_write_data.cpp
+++ b/trick_source/sim_services/VariableServer/VariableServerSession_write_data.cpp
@@ -164,7 +164,7 @@ int Trick::VariableServerSession::write_ascii_data(const std::vector<VariableRef
                 message_publish(MSG_DEBUG, "%p tag=<%s> var_server buffer[%d] too small (need %d), sending multiple ascii packets.\n",
                                 _connection, _connection->getClientTag().c_str(), MAX_MSG_LEN, message_size + var_size + 2);
 
-                message_publish(MSG_DEBUG, "%p tag=<%s> var_server sending %zu ascii bytes:\n%s\n",
+                message_publish(MSG_DEBUG, "%p tag=<%s> var_server sending %d ascii bytes:\n%s\n",
                                 _connection, _connection->getClientTag().c_str(), message_size, message.c_str());
             }
 
@@ -189,7 +189,7 @@ int Trick::VariableServerSession::write_ascii_data(const std::vector<VariableRef
     std::string message = message_stream.str();
 
     if (_debug >= 2) {
-        message_publish(MSG_DEBUG, "%p tag=<%s> var_server sending %d ascii bytes:\n%s\n",
+        message_publish(MSG_DEBUG, "%p tag=<%s> var_server sending %zu ascii bytes:\n%s\n",
                         _connection, _connection->getClientTag().c_str(), message.size(), message.c_str());
     }
 
-- 
2.43.0


From 378897c3e50623f0d2345b63abb638a30ce63050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:18 +0000
Subject: [PATCH 54/69] fix: a disabled integration job no longer ends the
 passes of the others

---
 .../sim_services/Integrator/src/IntegLoopScheduler.cpp      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trick_source/sim_services/Integrator/src/IntegLoopScheduler.cpp b/trick_source/sim_services/Integrator/src/IntegLoopScheduler.cpp
index 659b7be..276561b 100644
--- a/trick_source/sim_services/Integrator/src/IntegLoopScheduler.cpp
+++ b/trick_source/sim_services/Integrator/src/IntegLoopScheduler.cpp
@@ -457,8 +457,14 @@ int Trick::IntegLoopScheduler::integrate_dt ( double t_start, double dt) {
         // Call all of the jobs in the integration job queue.
         Trick::JobData * curr_job;
         integ_jobs.reset_curr_index();
+        ipass = 0;
         while ((curr_job = integ_jobs.get_next_job()) != NULL) {
 
+            // A disabled job does not integrate; calling it always returns zero,
+            // which must not be taken as the end of the other jobs' passes.
+            if (curr_job->disabled) {
+                continue;
+            }
 
             void* sup_class_data = curr_job->sup_class_data;
             // Jobs without supplemental data use the default integrator.
-- 
2.43.0


From 5b739a76120ef4801513135c44c7d611eb8b6a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:18 +0000
Subject: [PATCH 55/69] fix: a cycle changed twice between integrations does
 not repeat time

---
 .../sim_services/Integrator/src/IntegLoopScheduler.cpp       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/Integrator/src/IntegLoopScheduler.cpp b/trick_source/sim_services/Integrator/src/IntegLoopScheduler.cpp
index 276561b..b25bf52 100644
--- a/trick_source/sim_services/Integrator/src/IntegLoopScheduler.cpp
+++ b/trick_source/sim_services/Integrator/src/IntegLoopScheduler.cpp
@@ -619,7 +619,10 @@ int Trick::IntegLoopScheduler::set_integ_cycle (
     // Set the cycle rate for that one job and for this object.
     // Note: This assumes that the one found job pertains to this scheduler.
     else {
-        long long prev_tics = found_job->next_tics - found_job->cycle_tics;
+        // The next interval starts where the last one ended, which is not a
+        // cycle before the next call if the cycle was already changed.
+        long long prev_tics = found_job->next_tics -
+                              (long long)round(next_cycle * found_job->time_tic_value);
         long long curr_tics = exec_get_time_tics();
         found_job->set_cycle (in_cycle);
         found_job->set_next_call_time (curr_tics);
-- 
2.43.0


From 9684dcb66d191ca2d3d999f6e9227ae1e2ce0c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:18 +0000
Subject: [PATCH 56/69] fix: dynamic events of multi-rate loops get the
 interval, not its length

---
 .../sim_services/Integrator/src/MultiDtIntegLoopScheduler.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/Integrator/src/MultiDtIntegLoopScheduler.cpp b/trick_source/sim_services/Integrator/src/MultiDtIntegLoopScheduler.cpp
index 7426002..4a95623 100644
--- a/trick_source/sim_services/Integrator/src/MultiDtIntegLoopScheduler.cpp
+++ b/trick_source/sim_services/Integrator/src/MultiDtIntegLoopScheduler.cpp
@@ -182,7 +182,7 @@ int MultiDtIntegLoopScheduler::integrate()
     // Process dynamic events, if any.
     if(!dynamic_event_jobs.empty())
     {
-        status = process_dynamic_events(t_start, var_next_cycle);
+        status = process_dynamic_events(t_start, t_end);
 
         if(status != 0)
         {
-- 
2.43.0


From bad9a41e6a36a33fd9c7294a35e3332019b2f797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:19 +0000
Subject: [PATCH 57/69] fix: the end of a file variable removes the runs behind
 it, not those queued for a retry

---
 .../sim_services/MonteCarlo/MonteCarlo_funcs.cpp      | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/trick_source/sim_services/MonteCarlo/MonteCarlo_funcs.cpp b/trick_source/sim_services/MonteCarlo/MonteCarlo_funcs.cpp
index 1af2fe3..04ce476 100644
--- a/trick_source/sim_services/MonteCarlo/MonteCarlo_funcs.cpp
+++ b/trick_source/sim_services/MonteCarlo/MonteCarlo_funcs.cpp
@@ -121,10 +121,13 @@ void Trick::MonteCarlo::set_num_runs(unsigned int in_num_runs) {
     while (this->num_runs < in_num_runs) {
         runs.push_back(new Trick::MonteRun(this->num_runs++));
     }
-    while ( (this->num_runs > in_num_runs) && !runs.empty() ) {
-        delete runs.back();
-        runs.pop_back();
-        --this->num_runs;
+    // Runs that wait for a retry are queued behind runs with larger ids: remove the runs by their ids.
+    for (std::deque<MonteRun *>::size_type i = runs.size(); i > 0 && this->num_runs > in_num_runs; --i) {
+        if (runs[i - 1]->id >= in_num_runs) {
+            delete runs[i - 1];
+            runs.erase(runs.begin() + (i - 1));
+            --this->num_runs;
+        }
     }
     update_actual_num_runs();
 }
-- 
2.43.0


From 0e5845d6161b0c050ee9d6d3753492921ebc8b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:19 +0000
Subject: [PATCH 58/69] fix: a dry run does not use the run that the end of a
 file variable removed

---
 trick_source/sim_services/MonteCarlo/MonteCarlo_dryrun.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/MonteCarlo/MonteCarlo_dryrun.cpp b/trick_source/sim_services/MonteCarlo/MonteCarlo_dryrun.cpp
index b043f1b..55815c0 100644
--- a/trick_source/sim_services/MonteCarlo/MonteCarlo_dryrun.cpp
+++ b/trick_source/sim_services/MonteCarlo/MonteCarlo_dryrun.cpp
@@ -16,7 +16,10 @@ void Trick::MonteCarlo::dryrun() {
     /** <ul><li> For all runs: run the pre run jobs. */
     MonteRun * curr_run;
     while ((curr_run = get_next_dispatch())) {
-        prepare_run(curr_run);
+        if (prepare_run(curr_run) == -1) {
+            // A file variable reached its end: the run does not exist any more.
+            continue;
+        }
 
         // Write out the input file for this run.
         std::stringstream buffer_stream;
-- 
2.43.0


From 878f8b1887aa3220d7f3f5c39277adc3028564b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:19 +0000
Subject: [PATCH 59/69] fix: a run whose slave is lost is given to another
 slave

---
 .../MonteCarlo/MonteCarlo_dispatch_run_to_slave.cpp            | 3 +++
 .../sim_services/MonteCarlo/MonteCarlo_receive_results.cpp     | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/trick_source/sim_services/MonteCarlo/MonteCarlo_dispatch_run_to_slave.cpp b/trick_source/sim_services/MonteCarlo/MonteCarlo_dispatch_run_to_slave.cpp
index ec7303f..539d2cc 100644
--- a/trick_source/sim_services/MonteCarlo/MonteCarlo_dispatch_run_to_slave.cpp
+++ b/trick_source/sim_services/MonteCarlo/MonteCarlo_dispatch_run_to_slave.cpp
@@ -59,6 +59,9 @@ void Trick::MonteCarlo::dispatch_run_to_slave(MonteRun *run, MonteSlave *slave)
                 message_publish(MSG_ERROR, "Monte [Master] Failed to connect to %s:%d to dispatch run.\n",
                                 slave->machine_name.c_str(), slave->id) ;
             }
+            // Nobody processes the run: put it back, with the values it has, for the next slave.
+            ++run->num_tries;
+            runs.push_front(run);
         }
     }
 }
diff --git a/trick_source/sim_services/MonteCarlo/MonteCarlo_receive_results.cpp b/trick_source/sim_services/MonteCarlo/MonteCarlo_receive_results.cpp
index 3823ae4..4d19448 100644
--- a/trick_source/sim_services/MonteCarlo/MonteCarlo_receive_results.cpp
+++ b/trick_source/sim_services/MonteCarlo/MonteCarlo_receive_results.cpp
@@ -109,6 +109,8 @@ void Trick::MonteCarlo::handle_run_data(Trick::MonteSlave& slave) {
         int size = sizeof(exit_status);
         if (tc_read(&connection_device, (char*)&exit_status, size) != size) {
             set_disconnected_state(slave) ;
+            // The outcome of the run is lost with the slave.
+            handle_retry(slave, MonteRun::MC_RUN_TIMED_OUT);
             return;
         }
         exit_status = ntohl(exit_status);
-- 
2.43.0


From 54cbef3f4c73daadf419eb5eb00277a08af04c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:59 +0000
Subject: [PATCH 60/69] fix: a slave that gets no checkpoint name does not use
 the one of the checkpoint before

---
 trick_source/sim_services/MasterSlave/Slave.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trick_source/sim_services/MasterSlave/Slave.cpp b/trick_source/sim_services/MasterSlave/Slave.cpp
index 2aa12a8..8e8d19e 100644
--- a/trick_source/sim_services/MasterSlave/Slave.cpp
+++ b/trick_source/sim_services/MasterSlave/Slave.cpp
@@ -111,7 +111,10 @@ std::string Trick::Slave::get_checkpoint_name(MS_SIM_COMMAND command) {
     std::stringstream file_name_stream ;
     /** @par Detailed Design */
     /** @li Read the checkpoint name from master, it's in the form "dir/filename" */
-    connection->read_name(chkpnt_name, sizeof(chkpnt_name)); // dir/filename
+    if (connection->read_name(chkpnt_name, sizeof(chkpnt_name)) == (char)MS_ERROR_NAME) { // dir/filename
+        // no name was received, don't use the one that was received before
+        chkpnt_name[0] = MS_ERROR_NAME;
+    }
     /** @li Return the appropriate checkpoint name to use for given dump/load command */
     // ascii checkpoint() only wants a filename -- no dir path
     if (command == MS_ChkpntDumpAsciiCmd) {
-- 
2.43.0


From 756416ef5eff22094da62632e34504a2522fd834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:59 +0000
Subject: [PATCH 61/69] fix: a checkpoint name without a directory is taken by
 slaves

---
 trick_source/sim_services/MasterSlave/Slave.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trick_source/sim_services/MasterSlave/Slave.cpp b/trick_source/sim_services/MasterSlave/Slave.cpp
index 8e8d19e..234234c 100644
--- a/trick_source/sim_services/MasterSlave/Slave.cpp
+++ b/trick_source/sim_services/MasterSlave/Slave.cpp
@@ -119,7 +119,8 @@ std::string Trick::Slave::get_checkpoint_name(MS_SIM_COMMAND command) {
     // ascii checkpoint() only wants a filename -- no dir path
     if (command == MS_ChkpntDumpAsciiCmd) {
         if (chkpnt_name[0] != MS_ERROR_NAME) {
-            file_name_stream << strrchr(chkpnt_name, '/')+1; // filename only
+            const char * last_slash = strrchr(chkpnt_name, '/');
+            file_name_stream << (last_slash ? last_slash + 1 : chkpnt_name); // filename only
             //std::cout << "----> Slave: parsed checkpoint file name: " << file_name_stream.str() << std::endl;
         } else { // create default name
             file_name_stream << "chkpnt_" << std::fixed << std::setprecision(2) << exec_get_sim_time() ;
@@ -129,7 +130,8 @@ std::string Trick::Slave::get_checkpoint_name(MS_SIM_COMMAND command) {
     if (command == MS_ChkpntLoadAsciiCmd) {
         dir = command_line_args_get_output_dir(); // run dir
         if (chkpnt_name[0] != MS_ERROR_NAME) {
-            file_name_stream << dir << std::string(strrchr(chkpnt_name, '/')); // my run dir / filename
+            const char * last_slash = strrchr(chkpnt_name, '/');
+            file_name_stream << dir << "/" << (last_slash ? last_slash + 1 : chkpnt_name); // my run dir / filename
         } else { // create default name
             file_name_stream << dir << "/chkpnt_" << std::fixed << std::setprecision(2) << exec_get_sim_time() ;
         }
-- 
2.43.0


From ace668cf64d0ee459f086de0467d9e72d568dc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:59 +0000
Subject: [PATCH 62/69] fix: no checkpoint name without its command is sent to
 a slave that is waited for

---
 trick_source/sim_services/MasterSlave/Master.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/MasterSlave/Master.cpp b/trick_source/sim_services/MasterSlave/Master.cpp
index fcee56e..5363ec6 100644
--- a/trick_source/sim_services/MasterSlave/Master.cpp
+++ b/trick_source/sim_services/MasterSlave/Master.cpp
@@ -290,7 +290,7 @@ int Trick::SlaveInfo::write_master_status() {
 int Trick::SlaveInfo::write_master_chkpnt_name(std::string full_path_name) {
     /** @par Detailed Design: */
     /** @li If the slave is an active synchronization partner (activated == true) */
-    if ( activated == true ) {
+    if (( activated == true ) && (reconnect_count == 0)) {
         /** @li write the checkpoint dir/filename to the slave */
         if (full_path_name.length() > sizeof(chkpnt_name)-1) {
             message_publish(MSG_ERROR, "Master could not send checkpoint name to slave because name too long (max = %zu).\n",
-- 
2.43.0


From 34b919e6bb58068dc96f09269166088cd7a4abe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:59 +0000
Subject: [PATCH 63/69] fix: -p as the last argument has no port tag behind it

---
 trick_source/sim_services/MasterSlave/MSSocket.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trick_source/sim_services/MasterSlave/MSSocket.cpp b/trick_source/sim_services/MasterSlave/MSSocket.cpp
index 769c326..e9fb97f 100644
--- a/trick_source/sim_services/MasterSlave/MSSocket.cpp
+++ b/trick_source/sim_services/MasterSlave/MSSocket.cpp
@@ -71,7 +71,7 @@ int Trick::MSSocket::process_sim_args() {
     /** @li search for the "-p" argument.  If found get the master identifier as the next argument */
     for (ii = 1; ii < argc; ii++) {
         if (!strncmp("-p", argv[ii], (size_t) 2)) {
-            if (argc >= ii + 1) {
+            if (argc > ii + 1) {
                 sync_port_tag = argv[ii+1] ;
                 return(1) ;
             }
-- 
2.43.0


From e240cebca69a25db6daaf0292cbe442cfa7aa821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:25 +0000
Subject: [PATCH 64/69] fix: an element behind a declared pointer is found by
 the size of its type

---
 .../MemoryManager_make_reference_attr.cpp             | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_make_reference_attr.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_make_reference_attr.cpp
index abc9911..cc8e58a 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_make_reference_attr.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_make_reference_attr.cpp
@@ -34,6 +34,17 @@ ATTRIBUTES* Trick::MemoryManager::make_reference_attr( ALLOC_INFO* alloc_info) {
         reference_attr->index[ii].start= 0;
         reference_attr->index[ii].size = alloc_info->index[ii];
     }
+
+    /** @li Like the attributes of members, those of a pointer hold the size of the type that is pointed to. */
+    if ( (alloc_info->num_index > 0) && (alloc_info->index[alloc_info->num_index - 1] == 0) &&
+         (alloc_info->type != TRICK_OPAQUE_TYPE) ) {
+        TRICK_TYPE type = alloc_info->type;
+        ATTRIBUTES* type_attr;
+        int type_size;
+        if ( get_type_attributes( type, alloc_info->user_type_name ? alloc_info->user_type_name : "", 0, type_attr, type_size) == 0 ) {
+            reference_attr->size = type_size;
+        }
+    }
     return( reference_attr);
 }
 
-- 
2.43.0


From 28a12bb32ef5462bafacb0c3979458e460c1f0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:25 +0000
Subject: [PATCH 65/69] fix: an element of an array of pointers is named by its
 own index

---
 .../CheckPointAgent/ClassicCheckPointAgent.cpp        |  6 ++++++
 .../sim_services/MemoryManager/AttributesUtils.cpp    | 11 +++++++++--
 .../MemoryManager_get_attributes_for_address.cpp      |  2 +-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp b/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
index 96ad945..5ff2f71 100644
--- a/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
+++ b/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
@@ -279,6 +279,12 @@ static int getCompositeSubReference(
             snprintf(&reference_name[len], rem, "[%d]", traversalResult.array_indices[j]);
         }
 
+        /* if the elements are pointers, stop here */
+        if (Ai->index[Ai->num_index - 1].size == 0)
+        {
+            return 0;
+        }
+
         /* if left_type specifies the current member, stop here */
         if (left_type != NULL && *left_type != NULL && Ai->attr == (*left_type)->attr)
         {
diff --git a/trick_source/sim_services/MemoryManager/AttributesUtils.cpp b/trick_source/sim_services/MemoryManager/AttributesUtils.cpp
index 9ac0473..80a2810 100644
--- a/trick_source/sim_services/MemoryManager/AttributesUtils.cpp
+++ b/trick_source/sim_services/MemoryManager/AttributesUtils.cpp
@@ -235,6 +235,12 @@ int Trick::AttributesUtils::traverse_for_offset(
         return 1;
     }
 
+    // The elements of an array of pointers are not structs
+    if (ret_attr->index[ret_attr->num_index - 1].size == 0)
+    {
+        return 0;
+    }
+
     // Calculate the linear offset within the array element
     size_t element_offset = 0;
     for (int j = 0; j < ret_attr->num_index; j++)
@@ -272,8 +278,9 @@ bool Trick::AttributesUtils::compute_fixed_indices_for_linear_offset(
         return true;
     }
 
-    long size = member.size;
-    int last_size = member.size;
+    // the elements of an array of pointers are pointers
+    long size = (out_num_fixed_dims < member.num_index) ? sizeof(void*) : member.size;
+    int last_size = size;
     long remaining = offset_within_member_bytes;
 
     for (int i = out_num_fixed_dims - 1; i >= 0; --i)
diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_get_attributes_for_address.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_get_attributes_for_address.cpp
index fcd2897..c165102 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_get_attributes_for_address.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_get_attributes_for_address.cpp
@@ -74,7 +74,7 @@ static int getCompositeSubReference(
     }
 
     // If the member is a pointer, do nothing and return
-    if (retAttr->index[0].size == 0)
+    if (retAttr->index[retAttr->num_index - 1].size == 0)
     {
         attrOut = *retAttr;
         return 0;
-- 
2.43.0


From 1136cf8895dda6eb64bf1540ac92a74afd2af6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:18 +0000
Subject: [PATCH 66/69] fix: an address in an array is named by one index per
 dimension, that of a pointer by its name

---
 .../ClassicCheckPointAgent.cpp                | 34 +++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp b/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
index 5ff2f71..a9da5ba 100644
--- a/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
+++ b/trick_source/sim_services/CheckPointAgent/ClassicCheckPointAgent.cpp
@@ -736,6 +736,25 @@ void Trick::ClassicCheckPointAgent::write_singleton( std::ostream& chkpnt_os, vo
     }
 }
 
+// STATIC FUNCTION
+// Write the indices of an element of an allocation, one for each of its fixed dimensions.
+static void write_alloc_indices( std::ostream& os, const ALLOC_INFO* info, int elem_index) {
+
+    int indices[TRICK_MAX_INDEX];
+    int n_fixed = 0;
+
+    while ((n_fixed < info->num_index) && (info->index[n_fixed] != 0)) {
+        n_fixed++;
+    }
+    for (int ii = n_fixed - 1 ; ii >= 0 ; ii--) {
+        indices[ii] = (ii > 0) ? elem_index % info->index[ii] : elem_index;
+        elem_index /= info->index[ii];
+    }
+    for (int ii = 0 ; ii < n_fixed ; ii++) {
+        os << "[" << indices[ii] << "]";
+    }
+}
+
 // MEMBER FUNCTION
 // Get the variable-name associated with the given variable-address and data-type.
 // If no data-type is specified, (i.e., if attr == NULL), then the name will refer
@@ -812,9 +831,7 @@ std::string Trick::ClassicCheckPointAgent::
                         std::stringstream workss;
                         if (alloc_info->name != NULL) {
                             workss << "&" << alloc_info->name;
-                            if (alloc_info->num_index != 0) {
-                                workss << "[" << alloc_elem_index << "]";
-                            }
+                            write_alloc_indices( workss, alloc_info, alloc_elem_index);
                             reference_string = workss.str();
                         } else {
                             std::stringstream ss;
@@ -832,7 +849,8 @@ std::string Trick::ClassicCheckPointAgent::
                         reference_string = "ERROR - Badly aligned pointer";
                     }
                 }
-            } else if (alloc_info->type == TRICK_STRUCTURED) {
+            } else if ((alloc_info->type == TRICK_STRUCTURED) &&
+                       ((attr != NULL) || (alloc_info->num_index == 0) || (alloc_info->index[alloc_info->num_index - 1] != 0))) {
                 // The type specifications don't match, but the right-side is structured,
                 // so we apparently the matching type is buried in the right hand side structure.
 
@@ -840,9 +858,7 @@ std::string Trick::ClassicCheckPointAgent::
                     std::string rightside;
                     std::stringstream element_name;
                     element_name << "&" << alloc_info->name;
-                    if (alloc_info->num_index != 0) {
-                        element_name << '[' << alloc_elem_index << ']';
-                    }
+                    write_alloc_indices( element_name, alloc_info, alloc_elem_index);
                     rightside = get_var_name( pointer,
                                               alloc_info->attr,
                                               (char *) alloc_info->start + (alloc_elem_index * alloc_info->size),
@@ -874,9 +890,7 @@ std::string Trick::ClassicCheckPointAgent::
 
                         if (alloc_info->name != NULL) {
                             workss << "&" << alloc_info->name;
-                            if (alloc_info->num_index != 0) {
-                                workss << "[" << alloc_elem_index << "]";
-                            }
+                            write_alloc_indices( workss, alloc_info, alloc_elem_index);
                             reference_string = workss.str();
                         } else {
                             std::stringstream ss;
-- 
2.43.0


From 84db7ad15542ea170e7a43ab2602ba104d1634fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:18 +0000
Subject: [PATCH 67/69] fix: a member behind an arrow is found by following the
 pointer

---
 .../sim_services/CheckPointAgent/input_parser.y        |  8 ++++++--
 trick_source/sim_services/MemoryManager/ref_parser.y   | 10 +++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/trick_source/sim_services/CheckPointAgent/input_parser.y b/trick_source/sim_services/CheckPointAgent/input_parser.y
index 59dac79..d0d7d5c 100644
--- a/trick_source/sim_services/CheckPointAgent/input_parser.y
+++ b/trick_source/sim_services/CheckPointAgent/input_parser.y
@@ -451,8 +451,12 @@ param: NAME {
 
                // If the dereference is an arrow ...
                if ($2 == 1) {
-                   $$.num_index++;
-                   $$.num_index_left--;
+                   V_DATA first;
+                   first.type = TRICK_INTEGER;
+                   first.value.i = 0;
+                   if ((ret = IP->mem_mgr->ref_dim(&$$, &first)) != MM_OK) {
+                       $$.ref_type = REF_INVALID;
+                   }
                }
 
                /* Check to see if previous parameter specified too many dimensions. */
diff --git a/trick_source/sim_services/MemoryManager/ref_parser.y b/trick_source/sim_services/MemoryManager/ref_parser.y
index 14f28f0..ad37b2a 100644
--- a/trick_source/sim_services/MemoryManager/ref_parser.y
+++ b/trick_source/sim_services/MemoryManager/ref_parser.y
@@ -150,9 +150,13 @@ param: NAME {
     char temp[512];
 
     if ( $2 == 1) {
-        // we have an ARROW, so dereference the address.
-        $$.address = *(void**)$$.address;
-        $$.num_index ++; 
+        // we have an ARROW, so refer to the first element behind the pointer.
+        V_DATA first;
+        first.type = TRICK_INTEGER;
+        first.value.i = 0;
+        if ((ret = context->mem_mgr->ref_dim(&$$, &first)) != MM_OK) {
+            return (ret);
+        }
     }
 
     /* Check to see if previous parameter specified enough dimensions. */
-- 
2.43.0


From 96047f4273ad8d4e815440c368e260c094602966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:42 +0000
Subject: [PATCH 68/69] fix: a reference without a path follows a member
 reference

---
 .../MemoryManager/MemoryManager_ref_name.cpp           | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_ref_name.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_ref_name.cpp
index 3d1f76a..2f95720 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_ref_name.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_ref_name.cpp
@@ -155,10 +155,12 @@ int Trick::MemoryManager::ref_name(REF2 * R, char *name) {
     }
 
     if (attr->mods & 1) {
-            ADDRESS_NODE * address_node = new ADDRESS_NODE ;
-            address_node->operator_ = AO_DEREFERENCE ;
-            address_node->operand.address = NULL ;
-            DLL_AddTail(address_node , R->address_path) ;
+            if ( R->create_add_path ) {
+                ADDRESS_NODE * address_node = new ADDRESS_NODE ;
+                address_node->operator_ = AO_DEREFERENCE ;
+                address_node->operand.address = NULL ;
+                DLL_AddTail(address_node , R->address_path) ;
+            }
 
             addr = *(char**)addr;
     }
-- 
2.43.0


From df40308bceb476c5982990716dac8a41b9eb275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:52 +0000
Subject: [PATCH 69/69] fix: references to elements of different enumerations
 do not share their description

---
 .../MemoryManager/MemoryManager_ref_dim.cpp   | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/trick_source/sim_services/MemoryManager/MemoryManager_ref_dim.cpp b/trick_source/sim_services/MemoryManager/MemoryManager_ref_dim.cpp
index a8e4462..1c4f56d 100644
--- a/trick_source/sim_services/MemoryManager/MemoryManager_ref_dim.cpp
+++ b/trick_source/sim_services/MemoryManager/MemoryManager_ref_dim.cpp
@@ -139,18 +139,20 @@ int Trick::MemoryManager::ref_dim( REF2* R, V_DATA* V) {
             if (enum_pos != enumeration_map.end())
             {
                 // Create a temporary attribute structure for the enum element
-                static ATTRIBUTES temp_enum_attr;
-                memset(&temp_enum_attr, 0, sizeof(ATTRIBUTES));
-                temp_enum_attr.type = TRICK_ENUMERATED;
-                temp_enum_attr.type_name = R->attr->stl_elem_type_name;
-                temp_enum_attr.attr = enum_pos->second; // Point to ENUM_ATTR array
+                ATTRIBUTES *enum_attr = (ATTRIBUTES*)calloc(1, sizeof(ATTRIBUTES));
+                enum_attr->type = TRICK_ENUMERATED;
+                enum_attr->type_name = R->attr->stl_elem_type_name;
+                enum_attr->attr = enum_pos->second; // Point to ENUM_ATTR array
                 // Get actual enum size using generated io_src_sizeof function
                 size_t enum_size = io_src_sizeof_user_type(R->attr->stl_elem_type_name);
-                temp_enum_attr.size = (enum_size > 0) ? enum_size : sizeof(int); // Fall back to sizeof(int) if not found
-                temp_enum_attr.num_index = R->num_index; // Match the incremented indexing level
-                temp_enum_attr.units = (char*)"1"; // Default units for enums
-                temp_enum_attr.io = R->attr->io; // Preserve io flags from container
-                R->attr = &temp_enum_attr;
+                enum_attr->size = (enum_size > 0) ? enum_size : sizeof(int); // Fall back to sizeof(int) if not found
+                enum_attr->num_index = R->num_index; // Match the incremented indexing level
+                enum_attr->units = (char*)"1"; // Default units for enums
+                enum_attr->io = R->attr->io; // Preserve io flags from container
+                // each reference has an attribute of its own
+                free(R->ref_attr);
+                R->ref_attr = enum_attr;
+                R->attr = enum_attr;
             }
         }
         // For primitive types, the variable server and other code handle STL types
-- 
2.43.0

