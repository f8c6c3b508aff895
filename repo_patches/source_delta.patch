From 2c1ce5ed18944aa5829b31b7a86f6b61b190c873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 01/24] fix: bound attribute and value text read from
 configuration files, keep a last line without newline

---
 src/config-file.c | 18 +++++++++++++++---
 src/config-file.h |  2 +-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/config-file.c b/src/config-file.c
index 50002bb..4b25bc7 100644
--- a/src/config-file.c
+++ b/src/config-file.c
@@ -90,7 +90,7 @@ CF_fscanf( FILE* file )
   int file_done = 0;
   int line_done;
   int line_no = 0;
-  char ch;
+  int ch;
 
   int char_idx;
 
@@ -108,11 +108,11 @@ CF_fscanf( FILE* file )
 	 while( ! line_done )
 	   {
 
+		/* The end of the file also ends its last line. */
 		if ( ( ch = fgetc( file )) == EOF )
 		  {
-		    line_done = 1;
 		    file_done = 1;
-		    break;
+		    ch = '\n';
 		  }
 
 		switch( ch )
@@ -233,11 +233,23 @@ CF_fscanf( FILE* file )
 		    switch ( state )
 			 {
 			 case PARSE_IN_ATTRIBUTE:
+			   if ( char_idx >= MAX_CFG_FILE_STRING_LEN - 1 )
+				{
+				  cfg->error_count += 1;
+				  state = PARSE_IN_ERROR;
+				  break;
+				}
 			   attr[char_idx] = ch;
 			   char_idx += 1;
 			   break;
 
 			 case PARSE_IN_VALUE:
+			   if ( char_idx >= MAX_CFG_FILE_STRING_LEN - 1 )
+				{
+				  cfg->error_count += 1;
+				  state = PARSE_IN_ERROR;
+				  break;
+				}
 			   value[char_idx] = ch;
 			   char_idx += 1;
 			   break;
diff --git a/src/config-file.h b/src/config-file.h
index 567d246..54fd68d 100644
--- a/src/config-file.h
+++ b/src/config-file.h
@@ -26,7 +26,7 @@
 /* Private Data */
 /*******************************************************/
 
-#define MAX_CFG_FILE_STRING_LEN     100
+#define MAX_CFG_FILE_STRING_LEN     1024
 #define MAX_CFG_FILE_PARAMS         256
 
 /* Parse sates for parsing configuration file. See CF_fscanf(). */
-- 
2.43.0


From d91c7d1c9463f848c5e4eff67dd0bb1b74f5c765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 02/24] fix: make file name buffers large enough for the
 longest accepted option values

---
 src/fg-params.c   |  3 ++-
 src/global.h      |  4 ++--
 src/params.c      |  3 ++-
 src/params.h      |  2 +-
 src/pomdp-solve.c | 12 ++++++------
 5 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/fg-params.c b/src/fg-params.c
index f193da5..7185466 100644
--- a/src/fg-params.c
+++ b/src/fg-params.c
@@ -153,7 +153,8 @@ FGP_doPostParseActions( FiniteGridParams params ) {
 	 /* Null terminate at the period */
 	 tmp_str[idx] = '\0';
 
-	 sprintf( opts->prefix_str, "%s-%d", tmp_str, getPid() );
+	 snprintf( opts->prefix_str, MAX_OPT_STRING_LEN,
+			 "%s-%d", tmp_str, getPid() );
 	 
     } /* if we can override the default */
 
diff --git a/src/global.h b/src/global.h
index 064e873..1de5064 100644
--- a/src/global.h
+++ b/src/global.h
@@ -60,11 +60,11 @@
 /* When using strings as temporary space for holding messages to be
    printed, define the string to be of this length. Shouldn't need it
    larger than this, but if so, feel free to increase this. */
-#define MAX_MSG_LENGTH               1096
+#define MAX_MSG_LENGTH               2400
 
 /* For places where we statically allocate filename character arrays,
    use this for the length. */
-#define MAX_FILENAME_LENGTH          100
+#define MAX_FILENAME_LENGTH         1100
 
 /*******************************************************************/
 /**************              MACROS                 ****************/
diff --git a/src/params.c b/src/params.c
index 389b460..5681ee8 100644
--- a/src/params.c
+++ b/src/params.c
@@ -273,7 +273,8 @@ doPostOptionParseActions( PomdpSolveParams params ) {
 	 /* Null terminate at the period */
 	 tmp_str[idx] = '\0';
 
-	 sprintf( opts->prefix_str, "%s-%d", tmp_str, getPid() );
+	 snprintf( opts->prefix_str, MAX_OPT_STRING_LEN,
+			 "%s-%d", tmp_str, getPid() );
 	 
     } /* if we can override the default */
 
diff --git a/src/params.h b/src/params.h
index 11a3d2e..f28f110 100644
--- a/src/params.h
+++ b/src/params.h
@@ -180,7 +180,7 @@ struct PomdpSolveParamStruct {
   char backup_file[1024];
 
   /* The filename to use for previous epoch solution. */
-  char penultimate_filename[1024];
+  char penultimate_filename[MAX_FILENAME_LENGTH];
 
   /* For the algorithms which construct the value function one action
      at a time, the final step is to merge and purge all the
diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 4bb6179..7e79b01 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -322,10 +322,9 @@ handleSaveAll( AlphaList list, PomdpSolveParams param )
     as the initialization of the filenames that will be used.  We use
     static variables to maintain the filenames.
   */
-  static char alpha_filename[MAX_FILENAME_LENGTH];
-  static char pg_filename[MAX_FILENAME_LENGTH];
+  static char alpha_filename[MAX_FILENAME_LENGTH+12];
+  static char pg_filename[MAX_FILENAME_LENGTH+12];
   static char *alpha_filename_null_term, *pf_filename_null_term;
-  static char num_str[10];
   AlphaList scaled_list;
 
   /* A NULL list means we should initialize the names we will be using
@@ -353,9 +352,10 @@ handleSaveAll( AlphaList list, PomdpSolveParams param )
   /* If we have chosen to save each epoch's answer then write out
      the alpha vectors and policy tree with the unique filename.
      This just appends the epoch number to the name. */
-  sprintf( num_str, "%d", param->cur_epoch );
-  strcat( alpha_filename, num_str );
-  strcat( pg_filename, num_str );
+  snprintf( alpha_filename, sizeof( alpha_filename ), "%s%d",
+            param->alpha_filename, param->cur_epoch );
+  snprintf( pg_filename, sizeof( pg_filename ), "%s%d",
+            param->pg_filename, param->cur_epoch );
   
   if ( valuesRequireScaling() ) {
     scaled_list = makeScaledAlphaList( list, param->update_count );
-- 
2.43.0


From 13154f5ea42c656c9dcecf0bfecab3939c322df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 03/24] fix: bound option text quoted in command-line error
 messages

---
 src/command-line.c    | 8 ++++----
 src/program-options.c | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/command-line.c b/src/command-line.c
index 6fd574f..196a7bc 100644
--- a/src/command-line.c
+++ b/src/command-line.c
@@ -177,7 +177,7 @@ CL_addFlag( CommandLine cmd_line, char* dashed_flag )
 
   if ( strlen( dashed_flag ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line flag '%s' is too long. %s",
+	 sprintf( err_str, "Command line flag '%.900s' is too long. %s",
 			dashed_flag, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
@@ -218,7 +218,7 @@ CL_addArgOption( CommandLine cmd_line,
 
   if ( strlen( dashed_opt ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line flag '%s' is too long. %s",
+	 sprintf( err_str, "Command line flag '%.900s' is too long. %s",
 			dashed_opt, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
@@ -226,7 +226,7 @@ CL_addArgOption( CommandLine cmd_line,
 
   if ( strlen( value ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line value '%s' is too long. %s",
+	 sprintf( err_str, "Command line value '%.900s' is too long. %s",
 			value, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
@@ -275,7 +275,7 @@ CL_addArgProper( CommandLine cmd_line, char* value )
 
   if ( strlen( value ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line argument '%s' is too long. %s",
+	 sprintf( err_str, "Command line argument '%.900s' is too long. %s",
 			value, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
diff --git a/src/program-options.c b/src/program-options.c
index 113ad46..e4e55a1 100644
--- a/src/program-options.c
+++ b/src/program-options.c
@@ -363,7 +363,7 @@ PO_endValidate( ProgramOptions opts )
   int i;
   CommandLine cmd_line;
   AssocArray assoc;
-  char err_msg[256];
+  char err_msg[MAX_OPT_STRING_LEN + 64];
 
   if (( opts == NULL )
 	 || ( opts->flag_seen == NULL )
-- 
2.43.0


From 62c0f0370cd6faf8e524e78cfc4067127c6ed968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 04/24] fix: limit the width of strings scanned from policy
 graphs and belief commands

---
 src/pg.c    | 2 +-
 src/utils.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pg.c b/src/pg.c
index 1defd8d..3a7e039 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -190,7 +190,7 @@ LPG_scanf( FILE *file, int verify ) {
 	
 	for( z = 0; z < gNumObservations; z++ ) {
 	 
-	  if ( fscanf( file, "%s", int_str) == EOF )
+	  if ( fscanf( file, "%1095s", int_str) == EOF )
 	    {
 		 LPG_destroy( lpg );
 		 Warning("Not enough values in the policy graph file." );
diff --git a/src/utils.c b/src/utils.c
index 4730ec2..6c82cc0 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -1506,7 +1506,7 @@ UTIL_doBeliefUpdates()
 	 if ( UTIL_getLine( stdin, line, 1023 ) == EOF )
 	   break;
 
-	 sscanf( line, "%s", line_init );
+	 sscanf( line, "%254s", line_init );
 
 	 if ( strcmp( line_init, "exit" ) == 0 )
 	   break;
-- 
2.43.0


From 98c34ba44ad46fa1695f58642c9c4b90c0256b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 05/24] fix: check results of scanf conversions before using
 the values; honour the given random seed

---
 src/alpha.c  | 17 ++++++++++++++---
 src/belief.c | 10 +++++++---
 src/pg.c     | 13 +++++++++----
 src/random.c |  6 +++++-
 src/utils.c  |  3 ++-
 5 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index 92f6708..c0a74db 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -1094,7 +1094,7 @@ readAlphaList( char *filename, int max_alphas )
     it will only read the first max_alphas in the file.
   */
    FILE *file;
-   int a, i;
+   int a, i, num_read;
    double *alpha;
    AlphaList list = NULL;
    
@@ -1116,14 +1116,25 @@ readAlphaList( char *filename, int max_alphas )
    
    while( max_alphas != 0 ) {
      max_alphas--;
-     if ( fscanf( file, "%d", &a ) == EOF )
+     num_read = fscanf( file, "%d", &a );
+     if ( num_read == EOF )
        break;
+     if ( num_read != 1 ) {
+       fprintf(gStdErrFile, 
+               "** Error: Alpha vector file format incorrect.\n");
+       destroyAlphaList( list );
+       fclose( file );
+       return ( NULL );
+     }
      alpha = newAlpha();
      
      for ( i = 0; i < gNumStates; i++ )
-       if ( fscanf( file, "%lf", &( alpha[i] )) == EOF ) {
+       if ( fscanf( file, "%lf", &( alpha[i] )) != 1 ) {
          fprintf(gStdErrFile, 
                  "** Error: Alpha vector file format incorrect.\n");
+         XFREE( alpha );
+         destroyAlphaList( list );
+         fclose( file );
          return ( NULL );
        }
      
diff --git a/src/belief.c b/src/belief.c
index 0b70959..13d6565 100644
--- a/src/belief.c
+++ b/src/belief.c
@@ -184,7 +184,7 @@ readBeliefList( char *filename, int max )
     it will only read the first max_beliefs in the file.
   */
    FILE *file;
-   int i;
+   int i, num_read;
    double *b;
    BeliefList list = NULL;
    
@@ -208,14 +208,18 @@ readBeliefList( char *filename, int max )
      b = newBelief();
      
      for ( i = 0; i < gNumStates; i++ )
-       if ( fscanf( file, "%lf", &( b[i] )) == EOF ) {
+       if (( num_read = fscanf( file, "%lf", &( b[i] ))) != 1 ) {
+
+	    XFREE( b );
 
 	    /* We should run out of numbers to read when i == 0, since we
 		  need a number for each POMDP state in a belief.
 	    */
-	    if ( i > 0 ) {
+	    if (( i > 0 ) || ( num_read != EOF )) {
 		 fprintf(gStdErrFile, 
 			    "** Error: Belief list file format incorrect.\n");
+		 destroyBeliefList( list );
+		 fclose( file );
 		 return ( NULL );
 	    }
 	    else 
diff --git a/src/pg.c b/src/pg.c
index 3a7e039..8c351b3 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -165,16 +165,19 @@ LPG_scanf( FILE *file, int verify ) {
   int *neighbor;
   int z;
   char int_str[MAX_MSG_LENGTH];
-  int count = 0;
+  int count = 0, num_read;
 
   neighbor = (int *) XMALLOC( gNumObservations * sizeof( int ));
 
    while( 1 ) {
 
-     if( fscanf( file, "%d", &id ) == EOF )
+     num_read = fscanf( file, "%d", &id );
+     if( num_read == EOF )
        break;
 
-     if( fscanf( file, "%d", &action ) == EOF ) {
+     if(( num_read != 1 )
+	   || ( fscanf( file, "%d", &action ) != 1 )) {
+	  XFREE( neighbor );
 	  LPG_destroy( lpg );
 	  Warning( "Not enough values in the policy graph file.");
 	  return( NULL );
@@ -183,6 +186,7 @@ LPG_scanf( FILE *file, int verify ) {
 	if (( action < 0 ) 
 	    || ( action >= gNumActions ))
 	  {
+	    XFREE( neighbor );
 	    LPG_destroy( lpg );
 	    Warning( "Bad action number.\n" );
 	    return NULL;
@@ -190,8 +194,9 @@ LPG_scanf( FILE *file, int verify ) {
 	
 	for( z = 0; z < gNumObservations; z++ ) {
 	 
-	  if ( fscanf( file, "%1095s", int_str) == EOF )
+	  if ( fscanf( file, "%1095s", int_str) != 1 )
 	    {
+		 XFREE( neighbor );
 		 LPG_destroy( lpg );
 		 Warning("Not enough values in the policy graph file." );
 		 return NULL;
diff --git a/src/random.c b/src/random.c
index 1aeeb6a..df352e9 100644
--- a/src/random.c
+++ b/src/random.c
@@ -116,11 +116,15 @@ setRandomSeedFromString ( char *str )
      values. Also need to make this a function of SEED_SIZE and not
      hard coded as '3'. */  
   
-  sscanf( str, "%d:%d:%d", &s[0], &s[1], &s[2] );	
+  if ( sscanf( str, "%d:%d:%d", &s[0], &s[1], &s[2] ) != SEED_SIZE ) {
+    fprintf( stderr, "Random seed '%s' is not of the form n:n:n.\n", str );
+    exit( 1 );
+  }
   
   for( i = 0; i < SEED_SIZE; i++ )
     random_seed48[i] = (short) s[i];
 
+  seeded = 1;
 }  /* setRandomSeedFromString  */
 /**********************************************************************/
 void 
diff --git a/src/utils.c b/src/utils.c
index 6c82cc0..76adfaf 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -1506,7 +1506,8 @@ UTIL_doBeliefUpdates()
 	 if ( UTIL_getLine( stdin, line, 1023 ) == EOF )
 	   break;
 
-	 sscanf( line, "%254s", line_init );
+	 if ( sscanf( line, "%254s", line_init ) != 1 )
+	   line_init[0] = '\0';
 
 	 if ( strcmp( line_init, "exit" ) == 0 )
 	   break;
-- 
2.43.0


From d17692e436ea03ea568be2cb1bb073209fc81b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:10 +0000
Subject: [PATCH 06/24] fix: single-observation models crash in enumeration and
 incremental pruning (no source links on copied vectors)

---
 src/alpha.c       | 31 +++++++++++++++++--------------
 src/cross-sum.c   | 29 +++++++++++++++++++++++++++++
 src/cross-sum.h   |  4 ++++
 src/enumeration.c |  2 +-
 src/inc-prune.c   | 10 +++++-----
 5 files changed, 56 insertions(+), 20 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index c0a74db..1fa4ffc 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -451,7 +451,10 @@ duplicateAlphaNode( AlphaList node )
 
   new_node->first_source = node->first_source;
   new_node->second_source = node->second_source;
-  new_node->witness = node->witness;
+
+  /* Each node owns its witness point. */
+  if ( node->witness != NULL )
+    addWitnessToAlphaNode( new_node, node->witness );
 
   /* If there is an obs_choice array, we will copy the pointers, but
      must make a new array to hold them. */
@@ -900,17 +903,13 @@ copyAlphaList( AlphaList dest_list,
 
     /* Copy all the fields, though the burden on the being sane values
        lies in the orginal list. */
-    temp->id = src_list->id;
-    temp->obs = src_list->obs;
-    temp->prev_source = src_list->prev_source;
-    temp->next = src_list->next;
-    temp->first_source = src_list->first_source;
-    temp->second_source = src_list->second_source;
-    temp->mark = src_list->mark;
-    temp->hook = src_list->hook;
-    temp->length = src_list->length;
-    temp->head = src_list->head;
-    temp->tail = src_list->tail;
+    temp->id = list->id;
+    temp->obs = list->obs;
+    temp->prev_source = list->prev_source;
+    temp->first_source = list->first_source;
+    temp->second_source = list->second_source;
+    temp->mark = list->mark;
+    temp->hook = list->hook;
     
     temp->obs_source = NULL;
     temp->witness = NULL;
@@ -1199,10 +1198,14 @@ unionTwoAlphaLists( AlphaList list, AlphaList other_list )
     all nodes in the other_list are moved to this list.
   */
   if (( list == NULL ) 
-      || ( other_list == NULL )
-      || ( other_list->length == 0 ))
+      || ( other_list == NULL ))
     return;
 
+  if ( other_list->length == 0 ) {
+    XFREE( other_list );
+    return;
+  }
+
   if ( list->length < 1 ) {
     list->head = other_list->head;
     list->length = other_list->length;
diff --git a/src/cross-sum.c b/src/cross-sum.c
index 6543176..86bc3f1 100644
--- a/src/cross-sum.c
+++ b/src/cross-sum.c
@@ -121,6 +121,35 @@ setAlphaListSources( AlphaList new_node,
 }  /* setAlphaListSources */
 /**********************************************************************/
 AlphaList 
+duplicateProjection( AlphaList projection ) 
+{
+  /*
+    When there is only a single observation there is nothing to
+    cross-sum and the Q-function is just the one projection set.  This
+    returns a copy of that set in the form crossSum() would have left
+    it: with each node's obs_source array set to the projection vector
+    it came from.
+  */
+  AlphaList list, node, src;
+
+  Assert( projection != NULL, "Projection is NULL." );
+
+  list = duplicateAlphaList( projection );
+
+  for ( node = list->head, src = projection->head;
+        src != NULL;
+        node = node->next, src = src->next ) {
+
+    node->obs_source = newObsSourceArray();
+    node->obs_source[src->obs] = src;
+
+  } /* for each node */
+
+  return ( list );
+
+}  /* duplicateProjection */
+/**********************************************************************/
+AlphaList 
 crossSum( AlphaList A, AlphaList B, int save_obs_sources ) 
 {
   /*
diff --git a/src/cross-sum.h b/src/cross-sum.h
index 87b6730..4e9c452 100644
--- a/src/cross-sum.h
+++ b/src/cross-sum.h
@@ -37,5 +37,9 @@
 extern AlphaList crossSum( AlphaList A, 
                            AlphaList B, 
                            int save_obs_sources );
+
+/* For a single observation, where there is nothing to cross-sum: copies
+  the projection set and sets the obs_source arrays.  */
+extern AlphaList duplicateProjection( AlphaList projection );
  
 #endif
diff --git a/src/enumeration.c b/src/enumeration.c
index 82d24f7..1700635 100644
--- a/src/enumeration.c
+++ b/src/enumeration.c
@@ -61,7 +61,7 @@ enumerationByQ( AlphaList *projection )
      we have no cross-sum to do. */
   if ( gNumObservations == 1 ) {
     gNumVectorsEnum += projection[0]->length;
-    return ( duplicateAlphaList( projection[0] ));
+    return ( duplicateProjection( projection[0] ));
   }
 
    /* We do one less cross-sum than the number of observations. */
diff --git a/src/inc-prune.c b/src/inc-prune.c
index 5d61492..f043578 100644
--- a/src/inc-prune.c
+++ b/src/inc-prune.c
@@ -376,13 +376,13 @@ generalizedIpCrossSum( AlphaList A,
       destroyAlphaList( compare_list );
 
     if ( shouldTerminateEarly( new_list, param ))
-	 {
-	   destroyAlphaList( search_list );
-	   break;
-	 }
+	 break;
 
   } /* while orig_list->length > 0 */
 
+  /* Any nodes left, and the header of the list itself. */
+  destroyAlphaList( search_list );
+
   return( new_list );
 
 }  /* generalizedIpCrossSum */
@@ -404,7 +404,7 @@ improveIncPrune( AlphaList *projection,
      corresponds to a completely unobservable problem, but for this
      we have no cross-sum to do. */
   if ( gNumObservations == 1 ) 
-    return ( duplicateAlphaList( projection[0] ));
+    return ( duplicateProjection( projection[0] ));
 
     /* We do one less cross-sum than the number of observations. */
    for( z = 1; z < gNumObservations; z++) {
-- 
2.43.0


From dbc75ff76d9794377142c27a3c01d68625084e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:10 +0000
Subject: [PATCH 07/24] fix: release lists, files and work arrays on every
 path; free the right error string

---
 src/belief.c           |  2 ++
 src/laspack/errhandl.c |  2 +-
 src/lp-solve/solve.c   |  7 +++++++
 src/parsimonious.c     |  2 ++
 src/pomdp-tools-main.c |  2 ++
 src/utils.c            | 29 ++++++++++++++++++++++++++++-
 src/zlz_speedup.c      |  2 ++
 7 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/src/belief.c b/src/belief.c
index 13d6565..f07e554 100644
--- a/src/belief.c
+++ b/src/belief.c
@@ -227,7 +227,9 @@ readBeliefList( char *filename, int max )
 		 
        }
      
+     /* The list node keeps its own copy. */
      list = appendBeliefList( list, b );
+     XFREE( b );
    }  /* while */
    
  RBL_DONE:
diff --git a/src/laspack/errhandl.c b/src/laspack/errhandl.c
index 874c2fa..c111763 100644
--- a/src/laspack/errhandl.c
+++ b/src/laspack/errhandl.c
@@ -40,7 +40,7 @@ void LASError(LASErrIdType ErrId, char *ProcName, char *Object1Name,
     if (LASObject2Name != NULL)
         free(LASObject2Name);
     if (LASObject3Name != NULL)
-        free(LASObject2Name);
+        free(LASObject3Name);
     LASProcName = NULL;
     LASObject1Name = NULL;
     LASObject2Name = NULL;
diff --git a/src/lp-solve/solve.c b/src/lp-solve/solve.c
index bf0b769..840e405 100644
--- a/src/lp-solve/solve.c
+++ b/src/lp-solve/solve.c
@@ -511,6 +511,13 @@ void invert(lprec *lp)
      */
      if(row_nr > lp->rows) {
        gInversionProblem = TRUE;
+       free(rownum);
+       free(col);
+       free(row);
+       free(pcol);
+       free(frow);
+       free(fcol);
+       free(colnum);
        return;
      } /* if inversion problem */
 
diff --git a/src/parsimonious.c b/src/parsimonious.c
index 8aa950c..cc18a62 100644
--- a/src/parsimonious.c
+++ b/src/parsimonious.c
@@ -291,6 +291,8 @@ epsilonPrune( AlphaList list,
     
   } /* while no more unmarked vectors */
 
+  destroyAlphaList( orig_list );
+
   param->epsilon_diff_of_last_prune = max_diff;
 
   return( num_pruned );
diff --git a/src/pomdp-tools-main.c b/src/pomdp-tools-main.c
index 69ecd87..a8d4a2c 100644
--- a/src/pomdp-tools-main.c
+++ b/src/pomdp-tools-main.c
@@ -285,5 +285,7 @@ int main( int argc, char **argv )
   /* This will also take care of deallocating the 'opts' structure. */
   destroyPomdpSolveParams( solve_params );
 
+  POMDP_TOOLS_OPTS_delete( tool_options );
+
   return 0;
 } /* main */
diff --git a/src/utils.c b/src/utils.c
index 76adfaf..721aa46 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -609,12 +609,14 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The alpha2 file: %s cannot be read.\n",
 		  alpha2_filename);
+    destroyAlphaList( alpha1_list );
     return;
   }
 
   belief_list = readBeliefList( belief_filename, 0 );
   if ( belief_list == NULL ) {
-    fclose( file );
+    destroyAlphaList( alpha1_list );
+    destroyAlphaList( alpha2_list );
     return;
   }
 
@@ -622,6 +624,9 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The output file: %s cannot be opened.\n",
 		  out_filename);
+    destroyAlphaList( alpha1_list );
+    destroyAlphaList( alpha2_list );
+    destroyBeliefList( belief_list );
     return;
   }
 
@@ -780,6 +785,11 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
   XFREE( alpha2_uniquely_best );
   XFREE( alpha2_non_uniquely_best );
 
+  destroyBeliefList( belief_list );
+  destroyAlphaList( alpha1_list );
+  destroyAlphaList( alpha2_list );
+  fclose( file );
+
 } /* UTIL_fooNeedsAName */
 
 
@@ -917,6 +927,7 @@ UTIL_mapBeliefList( char *belief_filename,
 
   destroyBeliefList( belief_list );
   destroyAlphaList( alpha_list );
+  fclose( file );
 
 }  /* UTIL_mapBeliefList */
 
@@ -1163,6 +1174,7 @@ UTIL_relinkPolicyGraph( char *alpha_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The alpha2 file: %s cannot be read.\n",
 		  prev_alpha_filename);
+    destroyAlphaList( alpha_list );
     return;
   }
 
@@ -1175,18 +1187,26 @@ UTIL_relinkPolicyGraph( char *alpha_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The pg1 file: %s cannot be read.\n",
 		  pg_filename);
+    destroyAlphaList( alpha_list );
+    destroyAlphaList( prev_alpha_list );
     return;
   }
 
   if ( sizeAlphaList( alpha_list ) != pg->num_nodes ) {
     fprintf(gStdErrFile, 
 		  "** Error: The pg1 and alpha1 files are not compatible.\n");
+    destroyAlphaList( alpha_list );
+    destroyAlphaList( prev_alpha_list );
+    PG_Destructor( pg );
     return;
   }
 
   if ( gNumObservations != pg->num_obs ) {
     fprintf(gStdErrFile, 
 		  "** Error: The pg1 file is not compatible with POMDP file.\n");
+    destroyAlphaList( alpha_list );
+    destroyAlphaList( prev_alpha_list );
+    PG_Destructor( pg );
     return;
   }
 
@@ -1285,6 +1305,7 @@ UTIL_compareAlphaFiles( char *alpha1_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The alpha2 file: %s cannot be read.\n",
 		  alpha2_filename);
+    destroyAlphaList( alpha1_list );
     return;
   }
 
@@ -1292,6 +1313,8 @@ UTIL_compareAlphaFiles( char *alpha1_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The output file: %s cannot be opened.\n",
 		  out_filename);
+    destroyAlphaList( alpha1_list );
+    destroyAlphaList( alpha2_list );
     return;
   }
 
@@ -1382,6 +1405,7 @@ UTIL_compareAlphaFiles( char *alpha1_filename,
 
   destroyAlphaList( alpha1_list );
   destroyAlphaList( alpha2_list );
+  fclose( file );
 
 }  /* UTIL_compareAlphaFiles */
 
@@ -1568,6 +1592,9 @@ UTIL_doBeliefUpdates()
 	 copyBelief( prev_belief, next_belief );
     }
 
+  XFREE( prev_belief );
+  XFREE( next_belief );
+
 } /* UTIL_doBeliefUpdates */
 
 /**********************************************************************/
diff --git a/src/zlz_speedup.c b/src/zlz_speedup.c
index 21dc31e..c4f8b13 100644
--- a/src/zlz_speedup.c
+++ b/src/zlz_speedup.c
@@ -308,6 +308,8 @@ ZLZ_improve( AlphaList U_orig, double delta,
   
   num_pruned = ZLZ_pruneSpecial( U_orig, param );
 
+  destroyAlphaList( U_prev );
+
   if (( pre_prune_size - num_pruned ) > 0 )
     ZLZ_improve( U_orig, delta, recursion_level+1, param );
 
-- 
2.43.0


From 0535fc86c83527d01d7f3524809fd8da36980062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 08/24] fix: policy graph files: check node ids, write the
 right markers, release all arrays, print the node computed

---
 src/pg-eval.c |  9 +++++++--
 src/pg.c      | 32 ++++++++++++++++++++++++++------
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/pg-eval.c b/src/pg-eval.c
index a8a0f69..5e72a87 100644
--- a/src/pg-eval.c
+++ b/src/pg-eval.c
@@ -409,6 +409,7 @@ PGE_main( char *pg_filename ) {
   LinkedPG lpg;
   PG pg;
   int best_node;
+  double best_val;
 
   PgEvalContext pgec;
 
@@ -419,6 +420,9 @@ PGE_main( char *pg_filename ) {
 
   pg = PG_convertLPGToPG( lpg );
 
+  if ( pg == NULL )
+    Abort( "Problem reading the policy graph file.");
+
   pgec = PGEC_Constructor();
   
   if ( PGE_evaluate( pg, pgec )) {
@@ -430,9 +434,10 @@ PGE_main( char *pg_filename ) {
 	 printf( "No initial belief state. Cannot give a single value.\n" );
     }
     else {
+	 /* Done first, since it also sets 'best_node'. */
+	 best_val = PGEC_val( pgec, gInitialBelief, &best_node );
 	 printf( "Initial belief state value: %.2lf at node %d\n",
-		    PGEC_val( pgec, gInitialBelief, &best_node ),
-		    best_node );
+		    best_val, best_node );
 	 
     } /* if solution found */
   }
diff --git a/src/pg.c b/src/pg.c
index 8c351b3..ba56f40 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -261,6 +261,8 @@ LPG_printf( LinkedPG lpg, FILE *file ) {
   PG pg;
 
   pg = PG_convertLPGToPG( lpg );
+  if ( pg == NULL )
+    return;
 
   PG_printf( pg, file );
 
@@ -283,6 +285,8 @@ LPG_write( LinkedPG lpg, char *filename ) {
   PG pg;
 
   pg = PG_convertLPGToPG( lpg );
+  if ( pg == NULL )
+    return;
 
   PG_write( pg, filename );
 
@@ -433,6 +437,8 @@ PG_Destructor( PG pg )
     XFREE( pg->next[n] );
   XFREE( pg->next );
   XFREE( pg->action );
+  XFREE( pg->id );
+  XFREE( pg->marked );
   XFREE( pg );
 
 }  /* PG_Destructor */
@@ -491,12 +497,12 @@ PG_printf( PG pg, FILE *file  )
 	 fprintf( file, "%d %d  ", n, pg->action[n] );
 	 
 	 for( z = 0; z < pg->num_obs; z++ )
-	   if ( pg->next[n][z] != INVALID_NODE )
-		fprintf( file, "%d ", pg->next[n][z] );
-	   else if ( pg->next[n][z] == NO_INFO_NODE )
+	   if ( pg->next[n][z] == INVALID_NODE )
 		fprintf( file, "%s ", INVALID_NODE_STR );
-	   else
+	   else if ( pg->next[n][z] == NO_INFO_NODE )
 		fprintf( file, "%s ", NO_INFO_NODE_STR );
+	   else
+		fprintf( file, "%d ", pg->next[n][z] );
 	 
 	 fprintf( file, "\n");
     }  /* for n */
@@ -574,11 +580,13 @@ PG_read( char *filename, int verify )
 PG PG_convertLPGToPG( LinkedPG old_pg ) {
 /*
   Converts from a policy graph in the linked-list representation into
-  a policy graph in the array-based representation. 
+  a policy graph in the array-based representation.  The node ids must
+  be the numbers from 0 to one less than the number of nodes, each
+  appearing once; returns NULL if they are not.
 */
 
   PG pg;
-  int z;
+  int n, z;
 
   Assert ( old_pg != NULL, "Bad parameters" );
 
@@ -587,6 +595,15 @@ PG PG_convertLPGToPG( LinkedPG old_pg ) {
   
   while( old_pg != NULL ) {
 
+    if (( old_pg->id < 0 ) || ( old_pg->id >= pg->num_nodes )
+	   || pg->marked[old_pg->id] )
+	 {
+	   PG_Destructor( pg );
+	   Warning( "Bad node id in policy graph.\n" );
+	   return NULL;
+	 }
+
+    pg->marked[old_pg->id] = TRUE;
     pg->action[old_pg->id] = old_pg->action;
 
     for( z = 0; z < gNumObservations; z++ )
@@ -595,6 +612,9 @@ PG PG_convertLPGToPG( LinkedPG old_pg ) {
     old_pg = old_pg->next;
   }  /* while */
 
+  for( n = 0; n < pg->num_nodes; n++ )
+    pg->marked[n] = FALSE;
+
   return ( pg );
 
 }  /* PG_convertLPGToPG */
-- 
2.43.0


From 5635953dc3b345aa2d475f5e5e3031903ea3ae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 09/24] fix: close the model file when it cannot be parsed

---
 src/mdp/mdp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mdp/mdp.c b/src/mdp/mdp.c
index 4cdafa1..1ee6425 100644
--- a/src/mdp/mdp.c
+++ b/src/mdp/mdp.c
@@ -190,6 +190,7 @@ readMDP( char *filename ) {
    if( readMDPFile( file ) == 0 ) {
       fprintf( stderr, 
               "MDP file '%s' was not successfully parsed!\n", filename );
+      fclose( file );
       return( 0 );
    }
 
-- 
2.43.0


From 72b8da34f71caf273c82c747ea59840daa6318c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:23 +0000
Subject: [PATCH 10/24] fix: keep the belief when the given observation is
 impossible

---
 src/utils.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index 721aa46..ec0cb5d 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -1587,7 +1587,12 @@ UTIL_doBeliefUpdates()
 		continue;
 	   }
  
-	 transformBeliefState( prev_belief, next_belief, action, obs );
+	 if ( ! transformBeliefState( prev_belief, next_belief, action, obs ))
+	   {
+		fprintf( stderr, "Observation not possible.\n" );
+		fprintf( stdout, "[]\n" );
+		continue;
+	   }
 
 	 copyBelief( prev_belief, next_belief );
     }
-- 
2.43.0


From 6523a0725a8ff105cacc5603d82c1137b53da93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:53 +0000
Subject: [PATCH 11/24] fix: zero entries of a reward matrix override earlier
 rewards

---
 src/mdp/imm-reward.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mdp/imm-reward.c b/src/mdp/imm-reward.c
index 23a8264..1372c69 100644
--- a/src/mdp/imm-reward.c
+++ b/src/mdp/imm-reward.c
@@ -320,6 +320,12 @@ void irAddToDecisionTree(Imm_Reward_List node)
     
   case ir_matrix:
     m = node->rep.matrix;
+    /* Entries that are zero are not stored in the matrix, but they
+       override what was specified earlier like any other entry. */
+    if( gProblemType == POMDP_problem_type )
+      dtAdd(node->action, node->cur_state, WILDCARD_SPEC, WILDCARD_SPEC, 0.0);
+    else
+      dtAdd(node->action, WILDCARD_SPEC, WILDCARD_SPEC, WILDCARD_SPEC, 0.0);
     for (i=0; i < m->num_rows; i++) {
       for (j=0; j < m->row_length[i]; j++) {
 	k = m->row_start[i] + j;
-- 
2.43.0


From 84dd6e0067e6d129355ed73270cafb36bc962d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:57 +0000
Subject: [PATCH 12/24] fix: a model without rewards has rewards of zero, and a
 released reward tree is forgotten

---
 src/mdp/decision-tree.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mdp/decision-tree.c b/src/mdp/decision-tree.c
index fc0b221..e57d777 100644
--- a/src/mdp/decision-tree.c
+++ b/src/mdp/decision-tree.c
@@ -358,13 +358,18 @@ double dtGet(int action, int cur_state, int next_state, int obs)
   vec[2] = next_state;
   vec[3] = obs;
 
+  /* No reward was specified at all */
+  if (NULL == gTree) return 0.0;
+
   return dtGetInternal(gTree, vec, 0);
 }
 
 void dtDeallocate(void)
 {
   dtDestroyNode(gTree);
+  gTree = NULL;
   free(gTableSizes);
+  gTableSizes = NULL;
 }
 
 void dtDebugPrint(const char* header)
-- 
2.43.0


From b14029cb0bce8635c15ec17f78d32147e0bc4af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:30 +0000
Subject: [PATCH 13/24] fix: the smallest reward of a cost model is that of its
 negated costs, so the Bellman stopping error looks at both value functions

---
 src/mdp/mdp.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mdp/mdp.c b/src/mdp/mdp.c
index 1ee6425..dd2a75b 100644
--- a/src/mdp/mdp.c
+++ b/src/mdp/mdp.c
@@ -371,14 +371,17 @@ computeRewards() {
 	
       }  /* for j */
 
-      /* Update the minimum reward we are maintaining. */
+      addEntryToIMatrix( IQ, a, i, sum );
+
+      /* Update the minimum reward we are maintaining.  Costs are used
+         as negative rewards. */
+      if( gValueType == COST_value_type )
+        sum = -sum;
       gMinimumImmediateReward 
         = (gMinimumImmediateReward) < (sum) 
         ? (gMinimumImmediateReward) 
         : (sum);
 
-      addEntryToIMatrix( IQ, a, i, sum );
-
     }  /* for i */
 
 }  /* computeRewards */
-- 
2.43.0


From 88b989f46b9a73834a6bfd7d124ac436aca2f99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:45 +0000
Subject: [PATCH 14/24] fix: check MDP start state and reset, and let a
 wildcard name all start states

'start: N' of an MDP was not compared with the number of states, and 'reset'
in an MDP without a start state used state -1, so that the rewards were
looked up outside of their tables.  'start include: *' wrote to
gInitialBelief[-1]; the wildcard now stands for all states.
---
 src/mdp/parser.c | 25 ++++++++++++++++++++++---
 src/mdp/parser.y | 25 ++++++++++++++++++++++---
 2 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/src/mdp/parser.c b/src/mdp/parser.c
index 7bad489..0cea95f 100644
--- a/src/mdp/parser.c
+++ b/src/mdp/parser.c
@@ -867,6 +867,11 @@ enterResetMatrix( ) {
 	for( j = 0; j < gNumStates; j++ )
 	  addEntryToIMatrix( IP[a], i, j, gInitialBelief[j] );
   
+  else if( gInitialState == INVALID_STATE )
+    /* An MDP without a start state to go back to. */
+    ERR_enter("Parser<enterMatrix>:", currentLineNumber, 
+	      BAD_RESET_USAGE, "" );
+
   else  /* It is an MDP */
     for( a = minA; a <= maxA; a++ )
       for( i = minI; i <= maxI; i++ )
@@ -1078,7 +1083,11 @@ enterMatrix( double value ) {
 	gTooManyEntries = 1;
 
       else {
-	gInitialState = value;
+	if(( value < 0 ) || ( value >= gNumStates ))
+	  ERR_enter("Parser<enterMatrix>:", currentLineNumber, 
+		    BAD_STATE_VAL, "");
+	else
+	  gInitialState = value;
 	curCol++;
       }
       break;
@@ -1264,15 +1273,25 @@ enterStartState( int i ) {
    it is an MDP.
 */
 
+  int min = i, max = i;
+
   if( gProblemType == MDP_problem_type )
     return;
 
+  /* The wildcard stands for all the states. */
+  if( i == WILDCARD_SPEC ) {
+    min = 0;
+    max = gNumStates - 1;
+  }
+
   switch( curMatrixContext ) {
   case mc_start_include:
-    gInitialBelief[i] = 1.0;
+    for( i = min; i <= max; i++ )
+      gInitialBelief[i] = 1.0;
     break;
   case mc_start_exclude:
-    gInitialBelief[i] = 0.0;
+    for( i = min; i <= max; i++ )
+      gInitialBelief[i] = 0.0;
     break;
   default:
     ERR_enter("Parser<enterStartState>:", currentLineNumber, 
diff --git a/src/mdp/parser.y b/src/mdp/parser.y
index a8043a3..d6b8bd2 100644
--- a/src/mdp/parser.y
+++ b/src/mdp/parser.y
@@ -962,6 +962,11 @@ enterResetMatrix( ) {
 	for( j = 0; j < gNumStates; j++ )
 	  addEntryToIMatrix( IP[a], i, j, gInitialBelief[j] );
   
+  else if( gInitialState == INVALID_STATE )
+    /* An MDP without a start state to go back to. */
+    ERR_enter("Parser<enterMatrix>:", currentLineNumber, 
+	      BAD_RESET_USAGE, "" );
+
   else  /* It is an MDP */
     for( a = minA; a <= maxA; a++ )
       for( i = minI; i <= maxI; i++ )
@@ -1173,7 +1178,11 @@ enterMatrix( double value ) {
 	gTooManyEntries = 1;
 
       else {
-	gInitialState = value;
+	if(( value < 0 ) || ( value >= gNumStates ))
+	  ERR_enter("Parser<enterMatrix>:", currentLineNumber, 
+		    BAD_STATE_VAL, "");
+	else
+	  gInitialState = value;
 	curCol++;
       }
       break;
@@ -1359,15 +1368,25 @@ enterStartState( int i ) {
    it is an MDP.
 */
 
+  int min = i, max = i;
+
   if( gProblemType == MDP_problem_type )
     return;
 
+  /* The wildcard stands for all the states. */
+  if( i == WILDCARD_SPEC ) {
+    min = 0;
+    max = gNumStates - 1;
+  }
+
   switch( curMatrixContext ) {
   case mc_start_include:
-    gInitialBelief[i] = 1.0;
+    for( i = min; i <= max; i++ )
+      gInitialBelief[i] = 1.0;
     break;
   case mc_start_exclude:
-    gInitialBelief[i] = 0.0;
+    for( i = min; i <= max; i++ )
+      gInitialBelief[i] = 0.0;
     break;
   default:
     ERR_enter("Parser<enterStartState>:", currentLineNumber, 
-- 
2.43.0


From ec5a090c4229f8c1c7f97e010ba89153b29a5edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 15/24] fix: ZLZ speedup always uses witness points

---
 src/params.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/params.c b/src/params.c
index 5681ee8..f847457 100644
--- a/src/params.c
+++ b/src/params.c
@@ -304,6 +304,17 @@ doPostOptionParseActions( PomdpSolveParams params ) {
 
   } /* if lp_epsilon greater than general epsilon */
   
+  /****************/
+  /* The ZLZ speedup updates the vectors at their witness points. */
+  if (( opts->vi_variation == POMDP_SOLVE_OPTS_Vi_Variation_zlz )
+      && ( opts->use_witness_points == Boolean_false )) {
+
+    Warning( "ZLZ speedup requires witness points. Overriding." );
+
+    opts->use_witness_points = Boolean_true;
+
+  } /* if ZLZ speedup without witness points */
+
   /* Set the global LP precision */
   LP_setPrecision( opts->lp_epsilon );
   
-- 
2.43.0


From 5598347fd48281c311e9d2a02e95224c3e55ae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:51 +0000
Subject: [PATCH 16/24] fix: -dom_check keeps its documented default of true
 when it is not given

---
 src/pomdp-solve-options.c                        | 3 ++-
 src/scripts/generate-options/gen-program-opts.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pomdp-solve-options.c b/src/pomdp-solve-options.c
index c24cf68..7da41f8 100644
--- a/src/pomdp-solve-options.c
+++ b/src/pomdp-solve-options.c
@@ -552,7 +552,8 @@ POMDP_SOLVE_OPTS_parse( ProgramOptions opts )
                          POMDP_SOLVE_OPTS_ARG_DOM_CHECK_STR,
                          &(enum_idx),
                          Boolean_Str );
-  options->domination_check = enum_idx;
+  if ( ret_value == PO_OPT_PRESENT_VALID )
+    options->domination_check = enum_idx;
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'domination_check' has invalid value." );
 
diff --git a/src/scripts/generate-options/gen-program-opts.py b/src/scripts/generate-options/gen-program-opts.py
index ff6ddeb..362cf99 100755
--- a/src/scripts/generate-options/gen-program-opts.py
+++ b/src/scripts/generate-options/gen-program-opts.py
@@ -620,7 +620,8 @@ class ParamNode:
                lines.append( "                         &(enum_idx),\n")
                lines.append( "                         Boolean_Str );\n" )
 
-               lines.append( "  options->%s = enum_idx;\n"
+               lines.append( "  if ( ret_value == PO_OPT_PRESENT_VALID )\n" )
+               lines.append( "    options->%s = enum_idx;\n"
                              % this.getVarName() )
 
                
-- 
2.43.0


From 26827915e9b778706fc23fa3518810136bc3a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:24 +0000
Subject: [PATCH 17/24] fix: unknown options are reported instead of being
 ignored

---
 src/program-options.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/program-options.c b/src/program-options.c
index e4e55a1..5ca2efa 100644
--- a/src/program-options.c
+++ b/src/program-options.c
@@ -376,7 +376,7 @@ PO_endValidate( ProgramOptions opts )
 
   for ( i = 0; i < cmd_line->num_flags; i++ )
     { 
-	 if ( ! opts->flag_seen )
+	 if ( ! opts->flag_seen[i] )
 	   {
 		sprintf( err_msg, "Unreckognized command line flag '%s'.",
 			    cmd_line->flags[i] );
@@ -388,10 +388,10 @@ PO_endValidate( ProgramOptions opts )
 
   for ( i = 0; i < assoc->cur_size; i++ )
     { 
-	 if ( ! opts->option_seen )
+	 if ( ! opts->option_seen[i] )
 	   {
 		sprintf( err_msg, "Unreckognized command line option '%s'.",
-			    cmd_line->flags[i] );
+			    assoc->keys[i] );
 		PO_handleError( opts, err_msg );
 	   }
     } /* loop over flags */
-- 
2.43.0


From af1385c6fec14f8efb70fdcc183b03ea9f642fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 18/24] fix: stop the run when the time limit is reached

The SIGVTALRM handler reported that the program was terminated but did
not terminate it, so -time_limit had no effect.
---
 src/signal-handler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/signal-handler.c b/src/signal-handler.c
index 652e612..7e913f9 100644
--- a/src/signal-handler.c
+++ b/src/signal-handler.c
@@ -175,6 +175,8 @@ signalHandlerSIGVTALRM( int sig )
 
   reportSIGVTALRM( gInterruptParamContext );
    
+  exit ( 0 );
+
 }  /* signalHandlerSIGVTALRM */
 /**********************************************************************/
 static void 
-- 
2.43.0


From 9f6464254bfcfb74cca04e8921c74f2a279eea89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 19/24] fix: room for the index lists when comparing value
 functions

---
 src/utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index ec0cb5d..282bfdd 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -411,7 +411,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
 	-1 sentinel list terminator, we need this list to have one more
 	element than the number of belief points.
   */
-  diff_idx_list = (int *) XMALLOC( sizeBeliefList( belief_list )+1
+  diff_idx_list = (int *) XMALLOC( (sizeBeliefList( belief_list )+1)
 							* sizeof( int ));
 
   /* The index list is assumed to contain non-negative integers, with
@@ -422,7 +422,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
 
   /* Also want to keep track of those belief points where the maximal
 	differences occur (for convenience). */
-  maximal_idx_list = (int *) XMALLOC( sizeBeliefList( belief_list )+1
+  maximal_idx_list = (int *) XMALLOC( (sizeBeliefList( belief_list )+1)
 							   * sizeof( int ));
 
   maximal_idx_list[0] = -1;
-- 
2.43.0


From 205a5b4567f97f862e0017c3417b3ca7b3b25ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 20/24] fix: maximal difference between value functions that
 agree is zero

---
 src/utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 282bfdd..bb729c8 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -404,7 +404,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
   int *diff_idx_list;
   int *maximal_idx_list;
 
-  max_diff = -1.0 * HUGE_VAL;
+  max_diff = 0.0;
 
   /* For convenience in reporting, we want to keep a list of the
 	belief points where the two value function differ.  Because we use a
@@ -507,7 +507,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
   UTIL_printIndexList( file, diff_idx_list );
   fprintf( file, "\n" );
 
-  fprintf( file, "Maximal difference: %*f (%d points)\n", 
+  fprintf( file, "Maximal difference: %.*f (%d points)\n", 
 		 BELIEF_FILE_DECIMAL_PRECISION,
 		 max_diff,
 		 UTIL_sizeIndexList( maximal_idx_list ) );
-- 
2.43.0


From 63c93e12aa983ce5459a346bc180a54538dd42f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 21/24] fix: comparing with an empty value function is an error

---
 src/utils.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/utils.c b/src/utils.c
index bb729c8..cd78bed 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -1309,6 +1309,16 @@ UTIL_compareAlphaFiles( char *alpha1_filename,
     return;
   }
 
+  /* Nothing to compare with. */
+  if ( sizeAlphaList( alpha2_list ) < 1 ) {
+    fprintf(gStdErrFile, 
+		  "** Error: The alpha2 file: %s has no vectors.\n",
+		  alpha2_filename);
+    destroyAlphaList( alpha1_list );
+    destroyAlphaList( alpha2_list );
+    return;
+  }
+
   if ((file = fopen( out_filename , "w")) == NULL) {
     fprintf(gStdErrFile, 
 		  "** Error: The output file: %s cannot be opened.\n",
-- 
2.43.0


From 6ee366ce7200b648e400144d8f8867d193f1ca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:36 +0000
Subject: [PATCH 22/24] fix: leave observations no state gives rise to out of
 the grid instead of dividing by zero

---
 src/finite-grid.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/finite-grid.c b/src/finite-grid.c
index 960b76e..c5db829 100644
--- a/src/finite-grid.c
+++ b/src/finite-grid.c
@@ -216,6 +216,10 @@ genAllBeliefStates( PomdpSolveParams param )
 
 	 } /* for state */
 
+	 /* An observation no state gives rise to defines no belief state */
+	 if ( num_found == 0 )
+	   continue;
+
 	 /* Create a belief state uniform over this set of states */
 	 for( state = 0; state < gNumStates; state++ )
 	   gFGTempBelief[state] = gFGTempBelief[state] / num_found;
-- 
2.43.0


From 008d0574b0d29ecec6e6eadfccd0974442869251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:57 +0000
Subject: [PATCH 23/24] fix: -verbose turns on the mode it names

---
 src/pomdp-solve-options.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pomdp-solve-options.c b/src/pomdp-solve-options.c
index 7da41f8..030b81e 100644
--- a/src/pomdp-solve-options.c
+++ b/src/pomdp-solve-options.c
@@ -23,6 +23,8 @@
 #include <limits.h>
 
 #include "version.h"
+#include "global.h"
+#include "mdp/mdp.h"
 #include "pomdp-solve-options.h"
 
 /*
@@ -429,7 +431,12 @@ POMDP_SOLVE_OPTS_parse( ProgramOptions opts )
                          &(enum_idx),
                          POMDP_SOLVE_OPTS_Verbose_Str );
   if ( ret_value == PO_OPT_PRESENT_VALID )
-    options->verbose = enum_idx;
+    {
+      options->verbose = enum_idx;
+      /* Turn on the mode asked for (a few have no switch of their own). */
+      if ( enum_idx < NUM_VERBOSE_MODES )
+        gVerbose[enum_idx] = TRUE;
+    }
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'verbose' has invalid value." );
 
-- 
2.43.0


From 5bd016ba0ea4f687864c57b6e65cc9bf782d4388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:40 +0000
Subject: [PATCH 24/24] fix: a variation that does not exist yet ends with an
 error status

---
 src/pomdp-solve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 7e79b01..09635fa 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -704,7 +704,7 @@ doFixedSolnSizeVariation( PomdpSolveParams param )
 
   fprintf( stderr, "doFixedSolnSizeVariation() says:\n" );
   fprintf( stderr, "!!! Implement me !!!\n" );
-  exit( 0 );
+  exit( -1 );
 
 }  /* doFixedSolnSizeVariation */
 /**********************************************************************/
-- 
2.43.0

