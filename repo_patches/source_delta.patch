From 462b61dbd2ddc4f30b2084e51832db047ac9fb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 01/27] fix: return the learned clause from learnClause

The function was declared to return Clause* but had no return statement,
so the optimised (-O3) build ran off its end and crashed at the first
learned clause.
---
 bitvec/Formula.cc | 1 +
 src/Formula.cc    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 7d23ad9..24238de 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -369,6 +369,7 @@ Clause* Formula::learnClause ( Clause * clause ) {
 			VARLIST[i] -> VSIDS_SCORE[j] /=2;
 		}
 	}
+	return clause;
 }
 
 // Corresponding functions for watched literals version of the algorithm:
diff --git a/src/Formula.cc b/src/Formula.cc
index 289c321..d3edfeb 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -832,6 +832,7 @@ Clause* Formula::learnClause ( Clause * clause ) {
 			}
 		}
 	}
+	return clause;
 }
 
 int Formula::backtrackLevel ( Clause * learnedClause ) {
-- 
2.43.0


From 1c1eac79558c56d0fd89dbb107abb0b127fd33ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 02/27] fix: record a repeated literal of an input clause only
 once

The watched literals and the open-literal counters assume that the
literals of a clause are pairwise different. A clause such as 1=0 1=0
was never detected as unit: wrong UNSAT or a crash with -wl, an endless
loop with -solvenc -lazy.
---
 src/Formula.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Formula.cc b/src/Formula.cc
index d3edfeb..e9142d7 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -140,7 +140,8 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 					if(ch == '!')
 						sscanf(word_buffer, "%d %c %c %d", &var, &ch, &ch1, &val);
 					//checking if variable = 0 i.e end of line
-					if(var != 0)
+					//a literal repeated in the clause is recorded only once
+					if(var != 0 && !hasAtom(temp_clause, Literal(var, ch, val)))
 					{
 						//add it to clause_list's atom_list
 						temp_atom = Literal(var, ch, val);
-- 
2.43.0


From 1f624a481752a2e0e7fefe9cf5d4e9d97cc6a0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 03/27] fix: assign the value of variables with a one-element
 domain

checkEntail only runs when another value of the variable is excluded, so
a one-element domain was never entailed; v!=0 could be assigned and the
solver answered SAT with an incorrect or incomplete model.
---
 src/Formula.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/Formula.cc b/src/Formula.cc
index e9142d7..e103339 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -211,6 +211,21 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 	//closing file
 	infile.close();
+
+	//the only value of a single-valued domain is entailed from the start
+	for(unsigned int i=1; i<VARLIST.size(); i++)
+	{
+		if(VARLIST[i]->DOMAINSIZE == 1)
+		{
+			ENTAILS++;
+			if ( LOG ) cout << "Entailment... " << i << "=" << 0 << endl;
+			UNITCLAUSE = -2;
+			if ( WATCH )
+				watchedReduceTheory ( Literal(i, true, 0) );
+			else
+				reduceTheory ( i, true, 0 );
+		}
+	}
 	TIME_E = GetTime();
 }
 
-- 
2.43.0


From 86b13ecc8fe513adf83b6d1e0312a054e75e713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 04/27] fix: treat a clause without literals as unsatisfiable

An empty clause (a line '0') was accepted and then ignored: the solver
answered SAT with an incorrect model, and with -wl (and in bitvec) read
the watched literals of an empty literal list.
---
 bitvec/Formula.cc | 16 +++++++++++++---
 src/Formula.cc    |  7 ++++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 24238de..b270254 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -184,9 +184,19 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 
 
-			Literal watched1 = temp_clause -> ATOM_LIST[0];
-			temp_clause -> WATCHED[0] = watched1;
-			VARLIST[watched1.VAR]->addRecord(clause_num);
+			if ( temp_clause -> ATOM_LIST.empty() ) {
+
+				//a clause without literals cannot be satisfied
+				CONFLICT = true;
+				CONFLICTINGCLAUSE = clause_num;
+
+			} else {
+
+				Literal watched1 = temp_clause -> ATOM_LIST[0];
+				temp_clause -> WATCHED[0] = watched1;
+				VARLIST[watched1.VAR]->addRecord(clause_num);
+
+			}
 
 			if ( temp_clause -> ATOM_LIST.size() > 1 ) {
 
diff --git a/src/Formula.cc b/src/Formula.cc
index e103339..0f109ce 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -184,11 +184,16 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 			if (temp_clause->ATOM_LIST.size() == 1) {
 				UNITLIST.push_back(clause_num);
 			}
+			//a clause without literals cannot be satisfied
+			else if (temp_clause->ATOM_LIST.empty()) {
+				CONFLICT = true;
+				CONFLICTINGCLAUSE = clause_num;
+			}
 
 			// with watched literals option, assign first two literals in the clause to watched1 and watched2
 
 
-			if ( WATCH ) {
+			if ( WATCH && ! temp_clause -> ATOM_LIST.empty() ) {
 
 				Literal watched1 = temp_clause -> ATOM_LIST[0];
 				temp_clause -> WATCHED[0] = watched1;
-- 
2.43.0


From e4be857c1ef66093f9870bc2919461420ada7430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 05/27] fix: skip blank lines in input files

A blank line, such as the one at the end of the README's example, was
read as a clause without literals by the solver and by the converters.
---
 bitvec/Formula.cc      | 6 ++++++
 src/Boolean2Finite.cc  | 6 ++++++
 src/Formula.cc         | 6 ++++++
 src/LinearEncode.cc    | 6 ++++++
 src/QuadraticEncode.cc | 6 ++++++
 5 files changed, 30 insertions(+)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index b270254..411d5e3 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -117,6 +117,12 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 				cout << "Error: domain exceeds MAX_DOMAIN"<<endl;
 			}
 		}
+		//else if line is blank - skip it
+		else if(line_buffer[strspn(line_buffer, " \t")] == '\0')
+		{
+			//do nothing
+			;
+		}
 		//else its clause lines
 		else
 		{
diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index 89aef7b..d3a78e8 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -62,6 +62,12 @@ void Boolean2Finite(CommandLine * cline)
 	  outfile.write(line_buffer, strlen(line_buffer));
 	  outfile.put('\n');
 	}
+      //else if line is blank - skip it
+      else if(line_buffer[strspn(line_buffer, " \t")] == '\0')
+	{
+	  //do nothing
+	  ;
+	}
       //else its variables
       else
 	{
diff --git a/src/Formula.cc b/src/Formula.cc
index 0f109ce..14caad9 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -115,6 +115,12 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 			temp_var = new Variable(var, val);
 			VARLIST.push_back(temp_var);
 		}
+		//else if line is blank - skip it
+		else if(line_buffer[strspn(line_buffer, " \t")] == '\0')
+		{
+			//do nothing
+			;
+		}
 		//else its clause lines
 		else
 		{
diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index cede5b9..331eaff 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -87,6 +87,12 @@ void LinearEncode(CommandLine * cline)
 	  new_num_clause += 4*(val-2)+3+1;
 	  domain[var] = val;
 	}
+      //else if line is blank - skip it
+      else if(line_buffer[strspn(line_buffer, " \t")] == '\0')
+	{
+	  //do nothing
+	  ;
+	}
       //else its variables
       else
 	{
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 27e539c..f9ba3d1 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -88,6 +88,12 @@ void QuadraticEncode(CommandLine * cline)
 	  num_clause += (Fact(val)/(Fact(val-2)*Fact(2)));
 	  num_clause += 1;
 	}
+      //else if line is blank - skip it
+      else if(line_buffer[strspn(line_buffer, " \t")] == '\0')
+	{
+	  //do nothing
+	  ;
+	}
       //else its variables
       else
 	{
-- 
2.43.0


From 631bc7b0ed1f7437e419da2c94ed138952fd8eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 06/27] fix: read input lines of any length

A line of 3000 characters or more made getline fail, and the rest of the
file, including that line, was silently ignored.
---
 bitvec/Formula.cc      | 10 +++++++---
 src/Boolean2Finite.cc  | 10 +++++++---
 src/Formula.cc         | 10 +++++++---
 src/LinearEncode.cc    | 10 +++++++---
 src/QuadraticEncode.cc | 10 +++++++---
 5 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 411d5e3..40848db 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -61,8 +61,8 @@ Formula::Formula ( CommandLine * cline ) {
 void Formula::BuildFormula ( CommandLine* cline ) {
 	//local variables
 	ifstream infile;
-	char line_buffer[3000];
-	char word_buffer[3000];
+	string line;
+	vector<char> word;
 	int clause_num = 0;
 	int atom_num = 0;
 	int var, val;
@@ -91,8 +91,12 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 	//now reading each line from the infile and if needed to convert
 	//then converting it and writing to outfile or just writing directly
-	while(infile.getline(line_buffer, 3000))
+	while(getline(infile, line))
 	{
+		//lines may be of any length
+		word.resize(line.size() + 1);
+		char * line_buffer = &line[0];
+		char * word_buffer = &word[0];
 		temp_clause = new Clause(cline->CLAUSE_SIZE);
 		//if line is comment - just write
 		if(line_buffer[0] == 'c')
diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index d3a78e8..e6a71a2 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -16,8 +16,8 @@ void Boolean2Finite(CommandLine * cline)
   //local variables
   ifstream infile;
   ofstream outfile;
-  char line_buffer[MAX_LINE];
-  char word_buffer[MAX_LINE];
+  string line;
+  vector<char> word;
   int line_num = 0;
   int variable = 0;
   set<int> variables;
@@ -47,8 +47,12 @@ void Boolean2Finite(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(infile.getline(line_buffer, MAX_LINE))
+  while(getline(infile, line))
     {
+      //lines may be of any length
+      word.resize(line.size() + 1);
+      char * line_buffer = &line[0];
+      char * word_buffer = &word[0];
       ++line_num;
       //if line is comment - just write
       if(line_buffer[0] == 'c')
diff --git a/src/Formula.cc b/src/Formula.cc
index 14caad9..78a3502 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -63,8 +63,8 @@ Formula::Formula ( CommandLine * cline ) {
 void Formula::BuildFormula ( CommandLine* cline ) {
 	//local variables
 	ifstream infile;
-	char line_buffer[3000];
-	char word_buffer[3000];
+	string line;
+	vector<char> word;
 	int clause_num = 0;
 	int atom_num = 0;
 	int var, val;
@@ -93,8 +93,12 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 	//now reading each line from the infile and if needed to convert
 	//then converting it and writing to outfile or just writing directly
-	while(infile.getline(line_buffer, 3000))
+	while(getline(infile, line))
 	{
+		//lines may be of any length
+		word.resize(line.size() + 1);
+		char * line_buffer = &line[0];
+		char * word_buffer = &word[0];
 		temp_clause = new Clause(cline->CLAUSE_SIZE);
 		//if line is comment - just write
 		if(line_buffer[0] == 'c')
diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 331eaff..e340567 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -19,8 +19,8 @@ void LinearEncode(CommandLine * cline)
   //local variables
   ifstream infile;
   ofstream outfile;
-  char line_buffer[3000];
-  char word_buffer[3000];
+  string line;
+  vector<char> word;
   int num_clause = 0;
   int num_var = 0;
   int new_num_clause = 0;
@@ -57,8 +57,12 @@ void LinearEncode(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(infile.getline(line_buffer, 3000))
+  while(getline(infile, line))
     {
+      //lines may be of any length
+      word.resize(line.size() + 1);
+      char * line_buffer = &line[0];
+      char * word_buffer = &word[0];
       //if line is comment - just write
       if(line_buffer[0] == 'c')
 	{
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index f9ba3d1..64b9bfd 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -27,8 +27,8 @@ void QuadraticEncode(CommandLine * cline)
   //local variables
   ifstream infile;
   ofstream outfile;
-  char line_buffer[3000];
-  char word_buffer[3000];
+  string line;
+  vector<char> word;
   int num_clause = 0;
   int num_var = 0;
   int var, val;
@@ -63,8 +63,12 @@ void QuadraticEncode(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(infile.getline(line_buffer, 3000))
+  while(getline(infile, line))
     {
+      //lines may be of any length
+      word.resize(line.size() + 1);
+      char * line_buffer = &line[0];
+      char * word_buffer = &word[0];
       //if line is comment - just write
       if(line_buffer[0] == 'c')
 	{
-- 
2.43.0


From 81b2fbb19e0636f7db3cd12f13fc456823613898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 07/27] fix: accept the documented option -restarts

The README documents -restarts <int>; the parser only knew -restart and
silently ran without restarts.
---
 bitvec/Global.cc | 2 +-
 src/Global.cc    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitvec/Global.cc b/bitvec/Global.cc
index 13de27b..1ac33e1 100644
--- a/bitvec/Global.cc
+++ b/bitvec/Global.cc
@@ -125,7 +125,7 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 		{
 			for(current = 2; current < argc; current++)
 			{
-				if (!strcmp(argv[current], "-restart"))
+				if (!strcmp(argv[current], "-restart") || !strcmp(argv[current], "-restarts"))
 					cline->RESTARTS = atoi(argv[++current]);
 				else if(!strcmp(argv[current], "-verbose"))
 					cline->LOG = true;
diff --git a/src/Global.cc b/src/Global.cc
index 666b4d3..4ff0ad0 100644
--- a/src/Global.cc
+++ b/src/Global.cc
@@ -315,7 +315,7 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 		{
 			for(current = 2; current < argc; current++)
 			{
-				if (!strcmp(argv[current], "-restart"))
+				if (!strcmp(argv[current], "-restart") || !strcmp(argv[current], "-restarts"))
 					cline->RESTARTS = atoi(argv[++current]);
 				else if(!strcmp(argv[current], "-verbose"))
 					cline->LOG = true;
-- 
2.43.0


From aa707c084ac0a3151d11a095186329662a74bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 08/27] fix: keep the sign of != literals of two-valued
 variables in -linenc

v!=1 was written like v=1, and v!=0 like v=0.
---
 src/LinearEncode.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index e340567..7c2214c 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -187,7 +187,8 @@ void LinearEncode(CommandLine * cline)
 			}
 		      else
 			{
-			  if(val == 1)
+			  //v=1 and v!=0 are the positive literal
+			  if((val == 1) != (ch == '!'))
 			    {
 			      var = index[var];
 			      outfile<<var<<" ";
-- 
2.43.0


From 16f250a1996ebea501dd38a02d70ef3d13023118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 09/27] fix: count and constrain variables with one or two
 values in -linenc

The header counted 3 variables and 4 clauses for a two-valued variable,
which is written as one variable and no clause, and for a single-valued
variable a clause that was not written, so that its value could be
excluded.
---
 src/LinearEncode.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 7c2214c..d9a10a4 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -87,8 +87,17 @@ void LinearEncode(CommandLine * cline)
 	{
 	  temp = sscanf(line_buffer, "d %d %d", &var, &val);
 	  count++;
-	  new_num_var += 2*val-1;
-	  new_num_clause += 4*(val-2)+3+1;
+	  if(val > 2)
+	    {
+	      new_num_var += 2*val-1;
+	      new_num_clause += 4*(val-2)+3+1;
+	    }
+	  else
+	    {
+	      //one boolean variable, false if there is just one value
+	      new_num_var += 1;
+	      new_num_clause += (val == 1);
+	    }
 	  domain[var] = val;
 	}
       //else if line is blank - skip it
@@ -145,10 +154,9 @@ void LinearEncode(CommandLine * cline)
 			  outfile<<var_t1<<" "<<var_t2<<" 0\n";
 			}
 		    }
-		  else
+		  else if(domain[i] == 1)
 		    {
-		      //do nothing
-		      ;
+		      outfile<<-(index[i])<<" 0"<<endl;
 		    }
 		}
 	    }
-- 
2.43.0


From 324e7d2e323ff21cfade82ee9d1a35d8611b4522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 10/27] fix: read the documented problem line in -linenc and
 -quadenc

Only 'p cnf' was parsed; with the documented 'p mvcnf' the numbers of
variables and clauses were left uninitialised.
---
 src/LinearEncode.cc    | 2 +-
 src/QuadraticEncode.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index d9a10a4..34ffad3 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -73,7 +73,7 @@ void LinearEncode(CommandLine * cline)
       else if(line_buffer[0] == 'p')
 	{
 	  //do nothing
-	  temp = sscanf(line_buffer, "p cnf %d %d", &var, &val);
+	  temp = sscanf(line_buffer, "p %*s %d %d", &var, &val);
 	  num_var = var;
 	  num_clause = val;
 	  domain = new int[var+1];
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 64b9bfd..173fd9e 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -79,7 +79,7 @@ void QuadraticEncode(CommandLine * cline)
       else if(line_buffer[0] == 'p')
 	{
 	  //do nothing
-	  temp = sscanf(line_buffer, "p cnf %d %d", &var, &val);
+	  temp = sscanf(line_buffer, "p %*s %d %d", &var, &val);
 	  num_clause += val;
 	}
       //else if line is d var# domsize
-- 
2.43.0


From cd03d02bdc63548ad4d5be45ed5fdb1766df37ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 11/27] fix: count pairs of values without factorials in
 -quadenc

The factorial overflows from 13 values on: wrong clause counts in the
header, and a division by zero from 34 values on.
---
 src/QuadraticEncode.cc | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 173fd9e..6d4a706 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -9,16 +9,6 @@
 #include <cstring>
 using namespace std;
 //**********************************************************************//
-//Factorial
-//Computes the factorial of a number
-inline int Fact(int n)
-{
-  int temp = 1;
-  for(int x=1; x<n+1; x++)
-    temp *= x;
-  return temp;
-}
-
 //QuadraticEncode
 //This function converts a finite domain file into a boolean domain
 //using the Quadratic Encoding technique
@@ -89,7 +79,7 @@ void QuadraticEncode(CommandLine * cline)
 	  temp_var = new Variable(var, val);
 	  VAR_LIST.push_back(temp_var);
 	  num_var += val;
-	  num_clause += (Fact(val)/(Fact(val-2)*Fact(2)));
+	  num_clause += val*(val-1)/2;
 	  num_clause += 1;
 	}
       //else if line is blank - skip it
-- 
2.43.0


From a404fca281fb2f3e08fd79625f9942f97b782631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 12/27] fix: never generate an empty domain with -genben -drand
 1

rand() % domain can be 0, which made the choice of a value divide by
zero; the requested size itself was never used.
---
 src/GenBenFunc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index 5a9b324..e578b95 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -56,7 +56,7 @@ void GenBenFin(CommandLine * cline)
       for(x=0; x<cline->NUM_VAR; x++)
 	{
 	  VARIABLES[x].VAR = x;
-	  VARIABLES[x].VAL = rand() % cline->DOMAIN_SIZE;
+	  VARIABLES[x].VAL = rand() % cline->DOMAIN_SIZE + 1;
 	}
     }
 
-- 
2.43.0


From 71cf545c7d18352592adaebeebe8ba2d737dd0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 13/27] fix: make -genben -bool 0 -sat 1 satisfiable

Half of the literals planted to be true in the solution were negated, so
nothing kept the generated formula satisfiable.
---
 src/GenBenFunc.cc | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index e578b95..46d1455 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -179,14 +179,7 @@ void GenBenBool(CommandLine * cline)
 	  if(cline->SAT_UNSAT && x==0)
 	    {
 	      //assigning variable to clause
-	      if(rand()%2)
-		{
-		  BCLAUSE_LIST[y][x] = BSOLN[(rand() % cline->NUM_VAR)+1];
-		}
-	      else
-		{
-		  BCLAUSE_LIST[y][x] = -1 * BSOLN[(rand() % cline->NUM_VAR)+1];
-		}
+	      BCLAUSE_LIST[y][x] = BSOLN[(rand() % cline->NUM_VAR)+1];
 	    }
 
 	  //else unsatisfiable
-- 
2.43.0


From 5cd8db525d8c58826b35b457af46fb1deaff872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 14/27] fix: declare all variables in -b2f

Domain lines were written only for variables that occur, except the
first one if no clause ends in 0, while the solver relies on the n-th
domain line describing variable n: gaps made it read other variables or
beyond its arrays. A file without clauses decremented the end of an
empty set.
---
 src/Boolean2Finite.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index e6a71a2..6c5993e 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -20,6 +20,7 @@ void Boolean2Finite(CommandLine * cline)
   vector<char> word;
   int line_num = 0;
   int variable = 0;
+  int num_var = 0;
   set<int> variables;
   vector <vector<int> > data;
 
@@ -63,6 +64,7 @@ void Boolean2Finite(CommandLine * cline)
       //else if line is p cnf var_num clause_num - just write
       else if(line_buffer[0] == 'p')
 	{
+	  sscanf(line_buffer, "p %*s %d", &num_var);
 	  outfile.write(line_buffer, strlen(line_buffer));
 	  outfile.put('\n');
 	}
@@ -123,14 +125,13 @@ void Boolean2Finite(CommandLine * cline)
 	}
     }
 
-  //now writing back the domain information
-  set<int>::iterator start = variables.begin();
-  set<int>::iterator end = variables.end();
-  end--;
-  for( ; start != end; )
+  //now writing back the domain information for all the variables,
+  //whether they occur in a clause or not
+  if(!variables.empty() && *variables.rbegin() > num_var)
+    num_var = *variables.rbegin();
+  for(int x=1; x<=num_var; x++)
     {
-      ++start;
-      outfile<<"d "<<*start<<" 2"<<endl;
+      outfile<<"d "<<x<<" 2"<<endl;
     }
 
   int ovsize = data.size();
-- 
2.43.0


From 4f23b9d1f481015295f25171fbc4d265551fa630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 15/27] fix: write the end marker of clauses in -b2f

Each clause of the extended DIMACS format ends with a 0; without it an
empty clause became a blank line and was lost.
---
 src/Boolean2Finite.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index 6c5993e..2294757 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -153,7 +153,7 @@ void Boolean2Finite(CommandLine * cline)
 	      outfile<<var<<"=1 ";
 	    }
 	}
-      outfile<<endl;
+      outfile<<"0"<<endl;
     }
   //closing file
   infile.close();
-- 
2.43.0


From bdf7a6b88df1084af048daa1c5b0812227997e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 16/27] fix: leave the help menu at the end of input

Once reading a choice failed, the menu was printed again and again
forever, repeating the last choice.
---
 bitvec/Global.cc | 4 +++-
 src/Global.cc    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bitvec/Global.cc b/bitvec/Global.cc
index 1ac33e1..deae8f6 100644
--- a/bitvec/Global.cc
+++ b/bitvec/Global.cc
@@ -45,7 +45,9 @@ void PrintHelp()
 		cout<<" (0) Quit"<<endl;
 		cout<<endl;
 		cout<<" Enter Choice now : ";
-		cin>>option;
+		//quit when there is no (valid) choice to read
+		if(!(cin>>option))
+			option = 0;
 		cout<<endl;
 
 		//Start Printing messages based on option
diff --git a/src/Global.cc b/src/Global.cc
index 4ff0ad0..6752882 100644
--- a/src/Global.cc
+++ b/src/Global.cc
@@ -50,7 +50,9 @@ void PrintHelp()
 		cout<<" (0) Quit"<<endl;
 		cout<<endl;
 		cout<<" Enter Choice now : ";
-		cin>>option;
+		//quit when there is no (valid) choice to read
+		if(!(cin>>option))
+			option = 0;
 		cout<<endl;
 
 		//Start Printing messages based on option
-- 
2.43.0


From 2ed5ea3286ae646ddeaf28d0ae9a5ca7bddd3729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 17/27] fix: undo to the requested level in bitvec

watchedUndoTheory ignored its argument, so a restart kept the decisions
below the backjump level while the search went on at level 0: a later
conflict was then reported as UNSAT.
---
 bitvec/Formula.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 40848db..6718fa5 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -432,7 +432,7 @@ void Formula::watchedUndoTheory ( int level ) { // FIXME  fixed ?
 
 	for ( unsigned int  i = 1; i < VARLIST.size(); i++ ) {
 
-		while (!VARLIST[i]->graphNodes.empty() && VARLIST[i]->graphNodes.back().level>LEVEL) {
+		while (!VARLIST[i]->graphNodes.empty() && VARLIST[i]->graphNodes.back().level>level) {
 
 			VARLIST[i]->CURRENT_DOMAIN = VARLIST[i]->CURRENT_DOMAIN | VARLIST[i]->graphNodes.back().values;
 
-- 
2.43.0


From dc2aaf92a92a5fd0cb7ce2e68312abe715ddd2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 18/27] fix: do not read the second watch of a unit clause in
 bitvec

A clause with one literal has no second watched literal; its variable -1
was used as an index into VARLIST.
---
 bitvec/Formula.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 6718fa5..5dd4dab 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -409,7 +409,7 @@ inline void Formula::watchedUpdateVar ( int var ) {
 		next = current->next;
 
 		if (sat(CLAUSELIST[current->c_num]->WATCHED[0])!=1) {
-			if (sat(CLAUSELIST[current->c_num]->WATCHED[1])==1) {
+			if (CLAUSELIST[current->c_num]->ATOM_LIST.size() > 1 && sat(CLAUSELIST[current->c_num]->WATCHED[1])==1) {
 				Literal lit = CLAUSELIST[current->c_num]->WATCHED[1];
 				CLAUSELIST[current->c_num]->WATCHED[1] = CLAUSELIST[current->c_num]->WATCHED[0];
 				CLAUSELIST[current->c_num]->WATCHED[0] = lit;
@@ -591,7 +591,7 @@ void Formula::SwapPointer ( VARRECORD* current ) {
 
 	bool unitClause = true;
 
-	if ( sat ( watched2 )  == 2 ) {
+	if ( clause->ATOM_LIST.size() > 1 && sat ( watched2 )  == 2 ) {
 
 		// if watched2 unassigned, watched1 falsified
 
-- 
2.43.0


From e8f7a4372b99097b3017df3827dc526ebccbeb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 19/27] fix: drop literals that no value satisfies in bitvec

v!=0 of a single-valued variable is false from the start, but no domain
reduction ever triggers its watch, so clauses containing it were not
propagated and could be left unsatisfied in a SAT answer.
---
 bitvec/Formula.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 5dd4dab..3dadc52 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -162,9 +162,11 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 							vals.reset(val);
 						}
 
-						//add it to clause_list's atom_list
+						//add it to clause_list's atom_list, unless no value
+						//of the variable can satisfy it
 						temp_atom = Literal(var, vals);
-						temp_clause->addAtom(temp_atom);
+						if (vals.any())
+							temp_clause->addAtom(temp_atom);
 
 						//increment the index representing value so that
 						//we can keep track of number of occurrences of each
-- 
2.43.0


From 4e196d13e6d0400af95069467c0befea9024d149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 20/27] fix: give no verdict when the input file cannot be read
 to its end

---
 bitvec/Formula.cc | 10 ++++++++++
 src/Formula.cc    | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 3dadc52..49994c2 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -224,6 +224,16 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		}
 	}
 
+	//a file that could not be read to its end states no problem
+	if(infile.bad())
+	{
+		cout<<endl;
+		cout<<"**** ERROR ****"<<endl;
+		cout<<"Could not read input file : "<<endl;
+		cout<<endl;
+		exit(1);
+	}
+
 	//closing file
 	infile.close();
 	TIME_E = GetTime();
diff --git a/src/Formula.cc b/src/Formula.cc
index 78a3502..c7e0b8a 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -224,6 +224,16 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		}
 	}
 
+	//a file that could not be read to its end states no problem
+	if(infile.bad())
+	{
+		cout<<endl;
+		cout<<"**** ERROR ****"<<endl;
+		cout<<"Could not read input file : "<<endl;
+		cout<<endl;
+		exit(1);
+	}
+
 	//closing file
 	infile.close();
 
-- 
2.43.0


From d1f1b38d4038a360ba494475e16d83de6409fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 21/27] fix: report input files that a conversion cannot read
 to their end

---
 src/Boolean2Finite.cc  | 10 ++++++++++
 src/LinearEncode.cc    | 10 ++++++++++
 src/QuadraticEncode.cc | 10 ++++++++++
 3 files changed, 30 insertions(+)

diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index 2294757..30109ea 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -155,6 +155,16 @@ void Boolean2Finite(CommandLine * cline)
 	}
       outfile<<"0"<<endl;
     }
+  //a file that could not be read to its end cannot be converted
+  if(infile.bad())
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<"Could not read input file"<<endl;
+      cout<<endl;
+      exit(1);
+    }
+
   //closing file
   infile.close();
   outfile.close();
diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 34ffad3..84c40ba 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -214,6 +214,16 @@ void LinearEncode(CommandLine * cline)
 	}
     }
 
+  //a file that could not be read to its end cannot be converted
+  if(infile.bad())
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<"Could not read input file"<<endl;
+      cout<<endl;
+      exit(1);
+    }
+
   //closing file
   infile.close();
   outfile.close();
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 6d4a706..964ef0d 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -149,6 +149,16 @@ void QuadraticEncode(CommandLine * cline)
 	}
     }
 
+  //a file that could not be read to its end cannot be converted
+  if(infile.bad())
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<"Could not read input file"<<endl;
+      cout<<endl;
+      exit(1);
+    }
+
   //closing file
   infile.close();
   outfile.close();
-- 
2.43.0


From bd27fae3c58d9f7c9c50d07dda06f170ef48a24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 22/27] fix: report output that a conversion could not write
 completely

---
 src/Boolean2Finite.cc  | 8 ++++++++
 src/LinearEncode.cc    | 8 ++++++++
 src/QuadraticEncode.cc | 8 ++++++++
 3 files changed, 24 insertions(+)

diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index 30109ea..ccac501 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -168,6 +168,14 @@ void Boolean2Finite(CommandLine * cline)
   //closing file
   infile.close();
   outfile.close();
+  if(!outfile)
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<"Could not write output file"<<endl;
+      cout<<endl;
+      exit(1);
+    }
 }
 //End GenBenFunction
 //**********************************************************************//
diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 84c40ba..ac978ec 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -227,6 +227,14 @@ void LinearEncode(CommandLine * cline)
   //closing file
   infile.close();
   outfile.close();
+  if(!outfile)
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<"Could not write output file"<<endl;
+      cout<<endl;
+      exit(1);
+    }
 }
 //End LinearEncode
 //**********************************************************************//
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 964ef0d..4ed17c4 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -162,6 +162,14 @@ void QuadraticEncode(CommandLine * cline)
   //closing file
   infile.close();
   outfile.close();
+  if(!outfile)
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<"Could not write output file"<<endl;
+      cout<<endl;
+      exit(1);
+    }
 }
 //End LinearEncode
 //**********************************************************************//
-- 
2.43.0


From f64cb00b816468888bde3569267fd7cf6bed65b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 23/27] fix: end with an error status when -genben cannot open
 its file

---
 src/GenBenFunc.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index 46d1455..70f6533 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -119,6 +119,7 @@ void GenBenFin(CommandLine * cline)
       cout<<" Could not open output file to write "<<endl;
       cout<<"****       ****"<<endl;
       cout<<endl;
+      exit(1);
     }
   else
     {
@@ -225,6 +226,7 @@ void GenBenBool(CommandLine * cline)
       cout<<" Could not open output file to write "<<endl;
       cout<<"****       ****"<<endl;
       cout<<endl;
+      exit(1);
     }
   else
     {
-- 
2.43.0


From 824d1ad57fe9887496080cd03e2b42772b6e5b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 24/27] fix: report a -genben file that could not be written
 completely

---
 src/GenBenFunc.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index 70f6533..bc82fd3 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -138,6 +138,15 @@ void GenBenFin(CommandLine * cline)
 	}
     }
   outfile.close();
+  if(!outfile)
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<" Could not write output file "<<endl;
+      cout<<"****       ****"<<endl;
+      cout<<endl;
+      exit(1);
+    }
 }
 
 //GenBenBool
@@ -241,6 +250,15 @@ void GenBenBool(CommandLine * cline)
 	}
     }
   outfile.close();
+  if(!outfile)
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<" Could not write output file "<<endl;
+      cout<<"****       ****"<<endl;
+      cout<<endl;
+      exit(1);
+    }
 }
 //End GenBenFunction
 //**********************************************************************//
-- 
2.43.0


From 651fe23f2fc536d5e92fb951ee202660f097ca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 25/27] fix: bitvec stops when a domain exceeds MAX_DOMAIN

It reported the error and went on with a variable it cannot represent:
values above 63 aborted the run, and without them the domain was empty
and the answer wrong.
---
 bitvec/Formula.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 49994c2..857ed3b 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -119,6 +119,7 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 			if (val>MAX_DOMAIN) {
 				cout << "Error: domain exceeds MAX_DOMAIN"<<endl;
+				exit(1);
 			}
 		}
 		//else if line is blank - skip it
-- 
2.43.0


From f50ae9062a3e903661eb8134e14e908f78f1b035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:21 +0000
Subject: [PATCH 26/27] fix: analyse a conflict in a loop, not by recursion
 that can exhaust the stack

---
 bitvec/Formula.cc | 19 ++++++++++++++-----
 bitvec/Formula.h  |  4 ++++
 src/Formula.cc    | 23 ++++++++++++++++-------
 src/Formula.h     |  4 ++++
 4 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 857ed3b..4ef2afb 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -464,14 +464,23 @@ Clause* Formula::analyzeConflict ( Clause * clause, bool freeClauseAfterUse ) {
 	/*
     First check if there is exactly one atom falsified at the current level.
     If yes, learn the clause: this way upon backtrack it becomes unit. Otherwise
-    continue analyzing the conflict.
+    continue analyzing the conflict. This is a loop because the number of
+    resolutions a conflict needs can exceed what the call stack holds.
 	 */
 
-	if ( potent ( clause ) ) {
-		learnClause(clause);
-		return clause;
+	while ( ! potent ( clause ) ) {
+		clause = resolveLatest ( clause, freeClauseAfterUse );
+		freeClauseAfterUse = true;
 	}
 
+	learnClause(clause);
+	return clause;
+}
+
+//Resolving the clause with the reason of its latest falsified literal
+
+Clause* Formula::resolveLatest ( Clause * clause, bool freeClauseAfterUse ) {
+
 	// Resolve the clause and its latest falsified literal's reason
 	// Latest falsified literal in the clause:
 	Literal lastFalse;
@@ -504,7 +513,7 @@ Clause* Formula::analyzeConflict ( Clause * clause, bool freeClauseAfterUse ) {
 		cout << "Resolvent:" << endl;
 		resolvent -> Print();
 	}
-	return analyzeConflict ( resolvent, true );
+	return resolvent;
 }
 
 void Formula::assignWatched( Clause* clause) {
diff --git a/bitvec/Formula.h b/bitvec/Formula.h
index f5b1673..b3e1c2a 100644
--- a/bitvec/Formula.h
+++ b/bitvec/Formula.h
@@ -100,6 +100,10 @@ public:
   //analyzeConflict : finds the conflict, learns and creates a conflict clause,
   //add's the clause to theory and returns a backtrack level
   Clause * analyzeConflict(Clause * clause, bool freeClauseAfterUse);
+
+  //resolveLatest : resolves the clause with the reason of its latest falsified
+  //                literal; analyzeConflict repeats it.
+  Clause * resolveLatest(Clause * clause, bool freeClauseAfterUse);
   //checks if a clause has exactly one literal falsified at current level
   bool potent(Clause * clause);
   //adds the parameter clause to CLAUSELIST and updates other required fields
diff --git a/src/Formula.cc b/src/Formula.cc
index c7e0b8a..c5607a3 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -1041,14 +1041,23 @@ Clause* Formula::analyzeConflict ( Clause * clause, bool freeClauseAfterUse ) {
 	/*
     First check if there is exactly one atom falsified at the current level.
     If yes, learn the clause: this way upon backtrack it becomes unit. Otherwise
-    continue analyzing the conflict.
+    continue analyzing the conflict. This is a loop because the number of
+    resolutions a conflict needs can exceed what the call stack holds.
 	 */
 
-	if ( potent ( clause ) ) {
-		learnClause(clause);
-		return clause;
+	while ( ! potent ( clause ) ) {
+		clause = resolveLatest ( clause, freeClauseAfterUse );
+		freeClauseAfterUse = true;
 	}
 
+	learnClause(clause);
+	return clause;
+}
+
+//Resolving the clause with the reason of its latest falsified literal
+
+Clause* Formula::resolveLatest ( Clause * clause, bool freeClauseAfterUse ) {
+
 	// Resolve the clause and its latest falsified literal's reason
 	// Latest falsified literal in the clause:
 	Literal lastFalse;
@@ -1098,8 +1107,8 @@ Clause* Formula::analyzeConflict ( Clause * clause, bool freeClauseAfterUse ) {
 
 
 	/*
-	The parameter clause is kept if analyzeConflict was called with a conflict 
-	clause that is part of the formula and deleted if it was called recursively 
+	The parameter clause is kept if resolveLatest was called with a conflict 
+	clause that is part of the formula and deleted if it was called
 	with a temporary resolvent
 	*/
 	if (freeClauseAfterUse) {
@@ -1116,7 +1125,7 @@ Clause* Formula::analyzeConflict ( Clause * clause, bool freeClauseAfterUse ) {
 		cout << "Resolvent:" << endl;
 		resolvent -> Print();
 	}
-	return analyzeConflict ( resolvent, true );
+	return resolvent;
 }
 
 
diff --git a/src/Formula.h b/src/Formula.h
index e8e1e40..1bdd10a 100644
--- a/src/Formula.h
+++ b/src/Formula.h
@@ -129,6 +129,10 @@ public:
   //analyzeConflict : finds the conflict, learns and creates a conflict clause,
   //add's the clause to theory and returns a backtrack level
   Clause * analyzeConflict(Clause * clause, bool freeClauseAfterUse);
+
+  //resolveLatest : resolves the clause with the reason of its latest falsified
+  //                literal; analyzeConflict repeats it.
+  Clause * resolveLatest(Clause * clause, bool freeClauseAfterUse);
   bool potent(Clause * clause);
   //learnClause: the learned clause clause is added to CLAUSELIST and the required clause fields are set
   Clause* learnClause ( Clause * clause );
-- 
2.43.0


From 14f02289962940b737f0dbe50f65f8151f9cc305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:59 +0000
Subject: [PATCH 27/27] fix: keep the open decisions of chronological
 backtracking off the call stack

---
 src/Formula.cc | 102 +++++++++++++++++++++++++------------------------
 1 file changed, 53 insertions(+), 49 deletions(-)

diff --git a/src/Formula.cc b/src/Formula.cc
index c5607a3..898dfbc 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -1588,67 +1588,71 @@ int Formula::ChronoBacktrack(int level)
 	// return 1 : if time out
 	// return 2 : if conflict and later used as unsatisfied
 
+	//the decisions whose complement has not been tried yet; they are kept here
+	//and not on the call stack because a search can be deeper than that
+	vector<Literal> decisions;
+
 	//set LEVEL
 	LEVEL = level;
 
-	//check if time out
-	TIME_E = GetTime();
-	if((TIME_E - TIME_S) > TIMELIMIT)
-		return 1;
-
-	//check unit literal
-	if(!UNITLIST.empty())
-		unitPropagation();
-
-	//check if time out
-	TIME_E = GetTime();
-	if((TIME_E - TIME_S) > TIMELIMIT)
-		return 1;
-
-	//check if conflict
-	if(CONFLICT)
+	while(true)
 	{
-		BACKTRACKS++;
-		CONFLICT = false;
-		undoTheory(LEVEL-1);
-		UNITLIST.clear();
-		LEVEL = LEVEL-1;
-		return 2;
-	}
-
-	//since all is fine, now need to choose a literal
-	//to branch on
-	Literal atom;
+		//check if time out
+		TIME_E = GetTime();
+		if((TIME_E - TIME_S) > TIMELIMIT)
+			return 1;
 
-	switch(heuristic) {
-		case Heuristic::BK  : atom = chooseLiteral (); break;
-		case Heuristic::lazy  : atom = lazyChooseLiteral (); break;
-	}
+		//check unit literal
+		if(!UNITLIST.empty())
+			unitPropagation();
 
-	if(atom.VAR != -1)
-	{
-		DECISIONS++;
-		LEVEL++;
-		if (LOG) cout << "Decision: " << atom . VAR << ( atom . EQUAL ? '=' : '!' ) << atom . VAL << endl;
-		reduceTheory(atom.VAR, atom.EQUAL, atom.VAL);
-		int result = ChronoBacktrack(LEVEL);
-		if(result == 0)
-			return 0;
-		else if(result == 1)
+		//check if time out
+		TIME_E = GetTime();
+		if((TIME_E - TIME_S) > TIMELIMIT)
 			return 1;
-		else if((result == 2) && (LEVEL >= 0))
+
+		//check if conflict
+		if(CONFLICT)
 		{
+			BACKTRACKS++;
+			CONFLICT = false;
+			undoTheory(LEVEL-1);
+			UNITLIST.clear();
+			LEVEL = LEVEL-1;
+
+			if(decisions.empty())
+				return 2;
+
+			//try the complement of the latest decision
+			Literal atom = decisions.back();
+			decisions.pop_back();
 			if (LOG) cout << "Conflict: Propagating " << atom . VAR << ( !atom . EQUAL ? '=' : '!' ) << atom . VAL << endl;
 			reduceTheory(atom.VAR, !atom.EQUAL, atom.VAL);
-			return ChronoBacktrack(LEVEL);
+			continue;
+		}
+
+		//since all is fine, now need to choose a literal
+		//to branch on
+		Literal atom;
+
+		switch(heuristic) {
+			case Heuristic::BK  : atom = chooseLiteral (); break;
+			case Heuristic::lazy  : atom = lazyChooseLiteral (); break;
+		}
+
+		if(atom.VAR != -1)
+		{
+			DECISIONS++;
+			LEVEL++;
+			if (LOG) cout << "Decision: " << atom . VAR << ( atom . EQUAL ? '=' : '!' ) << atom . VAL << endl;
+			reduceTheory(atom.VAR, atom.EQUAL, atom.VAL);
+			decisions.push_back(atom);
 		}
 		else
-			return 2;
-	}
-	else
-	{
-		// The theory is satisfied if all variables are assigned and there is no conflict
-		return 0;
+		{
+			// The theory is satisfied if all variables are assigned and there is no conflict
+			return 0;
+		}
 	}
 }
 
-- 
2.43.0

