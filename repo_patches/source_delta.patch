From e57f236a6daa6a6d04efa8fb6f8052773420df8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 01/40] fix: keep the non-existent mark of a query class across
 a DNAME rewrite

ResponseReturned skips classes of non-existing names, but reported them when
the name was redirected by a DNAME.
---
 src/interpretation-graph.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interpretation-graph.cpp b/src/interpretation-graph.cpp
index 5ad931b..4097c17 100644
--- a/src/interpretation-graph.cpp
+++ b/src/interpretation-graph.cpp
@@ -335,6 +335,7 @@ EC interpretation::Graph::ProcessDname(const ResourceRecord &record, const EC qu
     }
     EC new_query;
     new_query.excluded = query.excluded;
+    new_query.nonExistent = query.nonExistent;
     new_query.rrTypes = query.rrTypes;
     new_query.name = std::move(rdata_labels);
     return new_query;
-- 
2.43.0


From e078bed6ef53da51da6f9c2b840d2d8f8b2da031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 02/40] fix: do not take the addresses of the zone apex for
 glue records

With A or AAAA among the requested types the apex's own addresses were compared
with the parent's glue and DelegationConsistency reported a false difference.
---
 src/properties.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index 01a8f5e..5c41cf9 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -28,7 +28,8 @@ tuple<vector<ResourceRecord>, vector<ResourceRecord>> interpretation::Graph::Pro
     for (auto r : records) {
         if (r.get_type() == RRType::NS)
             nsRecords.push_back(r);
-        if (r.get_type() == RRType::A || r.get_type() == RRType::AAAA)
+        // IP records before the first NS record answer the query itself and are not glue
+        if (nsRecords.size() && (r.get_type() == RRType::A || r.get_type() == RRType::AAAA))
             glueRecords.push_back(r);
     }
     return std::make_tuple(nsRecords, glueRecords);
-- 
2.43.0


From bb8eb50e0cc286269989d2fa8528226d0e82c345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 03/40] fix: ZeroTTL reports only records of the types the
 property asks for

---
 src/properties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index 5c41cf9..865d248 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -219,7 +219,7 @@ void interpretation::Graph::Properties::ZeroTTL(
                 } else {
                     auto &rrs = std::get<2>(answer.get()[0]);
                     for (auto &r : rrs) {
-                        if (r.get_ttl() == 0) {
+                        if (r.get_ttl() == 0 && typesReq[r.get_type()]) {
                             json tmp;
                             tmp["Property"] = "Zero TTL";
                             tmp["Query"] = graph[end_nodes[0]].query.ToString();
-- 
2.43.0


From cc85b601437c99d44189e8cca4d939a01c5fe5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 04/40] fix: ResponseValue does not judge an alias when CNAME
 is not among its types

When another property of the job requests CNAME, the alias node is an end node
too and was reported as an empty answer.
---
 src/properties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index 865d248..23fd271 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -95,7 +95,7 @@ void interpretation::Graph::Properties::CheckResponseValue(
     for (auto vd : end_nodes) {
         if ((graph[vd].query.rrTypes & types_requested).count() > 0) {
             if (std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::ANS ||
-                std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::REWRITE) {
+                (std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::REWRITE && types_requested[RRType::CNAME])) {
                 set<string> rdatas;
                 for (auto rr : std::get<2>(graph[vd].answer.get()[0])) {
                     if (types_requested[rr.get_type()] == 1) {
-- 
2.43.0


From 8a204bf73f7cd5151c7360bc71445edaab5cf688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 05/40] fix: compare ResponseValue values without regard to
 letter case

Record data is stored in lower case, so a value with an upper case letter could
never match.
---
 src/driver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index fe4902f..4ac2ca9 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -252,6 +252,7 @@ void Driver::SetJob(const json &user_job)
         } else if (name == "ResponseValue") {
             std::set<string> values;
             for (string v : property["Value"]) {
+                boost::to_lower(v);
                 values.insert(v);
             }
             if (values.size()) {
-- 
2.43.0


From 95622015291c98b4c146fc716025873146f2f6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 06/40] fix: ResponseConsistency compares only records of its
 own types and does not compare an alias with its target

With CNAME among the types every alias was reported, even with a single server,
because the alias node was compared with the answer at the end of the chain, and
records requested by other properties of the job took part in the comparison.
---
 src/properties.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index 23fd271..0ba2b5a 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -143,6 +143,16 @@ void interpretation::Graph::Properties::CheckSameResponseReturned(
                          (2) Nodes with the query requesting for CNAME (covers 1 too)
     */
     vector<VertexDescriptor> cname_end_nodes{};
+    // Records of other types may be present if another property of the job requests them
+    auto requested = [&typesReq](const zone::LookUpAnswer &answer) {
+        vector<ResourceRecord> records;
+        for (auto &r : std::get<2>(answer)) {
+            if (typesReq[r.get_type()]) {
+                records.push_back(r);
+            }
+        }
+        return records;
+    };
     for (auto vd : end_nodes) {
         if ((graph[vd].query.rrTypes & typesReq).count() > 0 && graph[vd].ns != "") {
             boost::optional<vector<zone::LookUpAnswer>> answer = graph[vd].answer;
@@ -151,14 +161,19 @@ void interpretation::Graph::Properties::CheckSameResponseReturned(
                     std::get<0>(answer.get()[0]) == ReturnTag::NSNOTFOUND) {
                     incomplete = true;
                 } else {
-                    if (graph[vd].query.rrTypes[RRType::CNAME]) {
+                    if (graph[vd].query.rrTypes[RRType::CNAME] && typesReq[RRType::CNAME]) {
                         cname_end_nodes.push_back(vd);
                     }
+                    if (std::get<0>(answer.get()[0]) == ReturnTag::REWRITE) {
+                        // An alias node is followed to its target for the other types and its
+                        // CNAME record is compared below
+                        continue;
+                    }
                     if (!response) {
                         response = answer;
                     } else {
                         CommonSymDiff diff =
-                            RRUtils::CompareRRs(std::get<2>(answer.get()[0]), std::get<2>(response.get()[0]));
+                            RRUtils::CompareRRs(requested(answer.get()[0]), requested(response.get()[0]));
                         if (std::get<1>(diff).size() || std::get<2>(diff).size()) {
                             foundDiff = true;
                         }
@@ -183,7 +198,7 @@ void interpretation::Graph::Properties::CheckSameResponseReturned(
                 // If only CNAME is requested then the answer will only have one element
                 // If CNAME and other types are requested then there might be a node with Rewrite
                 CommonSymDiff diff =
-                    RRUtils::CompareRRs(std::get<2>(graph[vd].answer.get()[0]), std::get<2>(response.get()[0]));
+                    RRUtils::CompareRRs(requested(graph[vd].answer.get()[0]), requested(response.get()[0]));
                 if (std::get<1>(diff).size() || std::get<2>(diff).size()) {
                     foundDiff = true;
                 }
-- 
2.43.0


From 45cffdd3d56db290623417eb409579485e2cf4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 07/40] fix: a CNAME answer synthesised from a wildcard carries
 the CNAME type only

It carried the types present at the closest encloser; at a zone apex that is NS,
and DelegationConsistency reported a false inconsistency for the wildcard names.
---
 src/zone-graph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zone-graph.cpp b/src/zone-graph.cpp
index 9936d81..f3721d1 100644
--- a/src/zone-graph.cpp
+++ b/src/zone-graph.cpp
@@ -294,7 +294,8 @@ bool zone::Graph::WildcardMatch(
                     matchingRRs.push_back(record);
                     // Return type is Ans if only CNAME is requested
                     if (query.rrTypes[RRType::CNAME] && query.rrTypes.count() == 1) {
-                        answers.push_back(std::make_tuple(ReturnTag::ANS, node_rr_types, matchingRRs));
+                        // node_rr_types are the types at the closest encloser, not those of this answer
+                        answers.push_back(std::make_tuple(ReturnTag::ANS, query.rrTypes, matchingRRs));
                     } else {
                         answers.push_back(std::make_tuple(ReturnTag::REWRITE, node_rr_types, matchingRRs));
                     }
-- 
2.43.0


From 0be861b94fb6d3c83aca42f9cbd5243d5044a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 08/40] fix: reset the structural delegation check between jobs

Once a job had asked for StructuralDelegationConsistency every later job of the
run reported it too.
---
 src/driver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index 4ac2ca9..0fc2f0c 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -217,6 +217,7 @@ void Driver::SetJob(const json &user_job)
     current_job_.stats.interpretation_edges.clear();
     current_job_.stats.interpretation_vertices.clear();
     current_job_.user_input_domain = d;
+    current_job_.check_structural_delegations = false;
     current_job_.check_subdomains = user_job["SubDomain"];
     current_job_.path_functions.clear();
     current_job_.node_functions.clear();
@@ -381,6 +382,7 @@ void Driver::SetJob(string &domain_name)
     current_job_.stats.interpretation_edges.clear();
     current_job_.stats.interpretation_vertices.clear();
     current_job_.user_input_domain = domain_name;
+    current_job_.check_structural_delegations = false;
     current_job_.check_subdomains = true;
     current_job_.path_functions.clear();
     current_job_.node_functions.clear();
-- 
2.43.0


From 06f35f65ef52cb854ea5cd1a464849c20b342d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 09/40] fix: do not traverse the label graph from several
 threads at once

The traversals mark the nodes they are in (Vertex::len) to detect DNAME loops;
with several starting nodes the threads overwrote each other's marks, which is a
data race and loses or repeats query classes.
---
 src/label-graph.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index 1a1e4de..e0f42f1 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -583,22 +583,16 @@ void label::Graph::GenerateECs(Job &current_job, const Context &context)
                 vector<NodeLabel> parent_domain_name = labels;
                 if (parent_domain_name.size())
                     parent_domain_name.pop_back();
-                vector<std::thread> ECproducers;
                 if (current_job.ec_queue.size_approx() != 0) {
                     Logger->warn(fmt::format(
                         "label-graph.cpp (GenerateECs) - The global EC queue is non-empty for {}",
                         current_job.user_input_domain));
                 }
-                // EC producer threads
+                // The traversals keep their state in the nodes (len), so they can not run concurrently
                 for (auto &encloser : closest_enclosers) {
-                    ECproducers.push_back(thread([&]() {
-                        SubDomainECGeneration(
-                            encloser.first, parent_domain_name, false, current_job, context,
-                            current_job.check_structural_delegations);
-                    }));
-                }
-                for (auto &t : ECproducers) {
-                    t.join();
+                    SubDomainECGeneration(
+                        encloser.first, parent_domain_name, false, current_job, context,
+                        current_job.check_structural_delegations);
                 }
             } else {
                 NodeEC(labels, current_job);
-- 
2.43.0


From bdfeb2377ac1e96b57c2a94723ca34d9b2fc16d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 10/40] fix: list the canonical names of AllAliases in a fixed
 order

The order followed an unordered_map filled in scheduling order, so identical runs
could report different violations.
---
 src/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/driver.cpp b/src/driver.cpp
index 0fc2f0c..2df1570 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -54,7 +54,7 @@ void Driver::GenerateECsAndCheckProperties()
     std::thread json_consumer = thread([this, &done_consumers]() {
         json item;
         bool itemsLeft;
-        std::unordered_map<string, set<string>> aliases;
+        std::map<string, set<string>> aliases;
         do {
             itemsLeft = done_consumers.load(std::memory_order_acquire) <= kECConsumerCount;
             while (current_job_.json_queue.try_dequeue(item)) {
-- 
2.43.0


From 413eb9768cb749753a7a7b57ae75b0f32b73aaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 11/40] fix: give Task a virtual destructor

Tasks are destroyed through unique_ptr<Task>.
---
 src/task.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/task.h b/src/task.h
index 2931558..4553467 100644
--- a/src/task.h
+++ b/src/task.h
@@ -7,6 +7,7 @@
 class Task
 {
   public:
+    virtual ~Task() = default;
     virtual string PrintTaskType() = 0;
     virtual void Process(const Context &, vector<boost::any> &) = 0;
 };
-- 
2.43.0


From cc4ebbbe9412e08fe9e545cb6628ec8ae60d4438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 12/40] fix: generate query classes for names of exactly the
 maximum length

A name of kMaxDomainLength octets is admitted into a zone but was never checked.
---
 src/label-graph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index e0f42f1..29f492a 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -465,7 +465,7 @@ void label::Graph::SubDomainECGeneration(
     for (NodeLabel &l : parent_domain_name) {
         len += l.get().length() + 1;
     }
-    if (len >= kMaxDomainLength || (len == (*this)[start].len && skipLabel)) {
+    if (len > kMaxDomainLength || (len == (*this)[start].len && skipLabel)) {
         //return if length exceedes or DNAME loop detected 
         //mostly likely turns out as cyclic zone dependecy so no need to report here
         return;
@@ -487,7 +487,7 @@ void label::Graph::SubDomainECGeneration(
     for (NodeLabel &l : name) {
         nodeLen += l.get().length() + 1;
     }
-    if (nodeLen >= kMaxDomainLength) {
+    if (nodeLen > kMaxDomainLength) {
         return;
     }
     (*this)[start].len = static_cast<int16_t>(nodeLen);
-- 
2.43.0


From 47010c94decb2981559b8af10e58715520bc37a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 13/40] fix: the root zone is not the closest parent when a
 longer one exists

A parent with an empty origin was kept next to the closer parent zones and
compared with them in the structural delegation check.
---
 src/label-graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index 29f492a..856eec3 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -203,7 +203,7 @@ void label::Graph::CheckStructuralDelegationConsistency(
                     // Parents issue: For a domain - dns.foo.com.ar. the records can come from multiple sources like
                     // from com.ar. (glue record), foo.com.ar. (delegation) and dns.foo.com.ar (SOA) In such cases we
                     // get multiple parents which should not be accounted for.
-                    if (longest_parent.size()) {
+                    if (parents.size()) {
                         if (longest_parent == z.get_origin()) {
                             parents.push_back(std::make_tuple(
                                 std::get<0>(zoneId_vertexId_pair), z.LookUpGlueRecords(ns_records),
-- 
2.43.0


From 9428136b9e20b2b96eccd0eb4ed6314bb89b3d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 14/40] fix: exit with a failure status when an exception ends
 the run

---
 bin/groot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/groot.cpp b/bin/groot.cpp
index 11baf0c..5c1f7ec 100644
--- a/bin/groot.cpp
+++ b/bin/groot.cpp
@@ -173,5 +173,6 @@ int main(int argc, const char **argv)
     } catch (exception &e) {
         cout << "Exception:- " << e.what() << endl;
         spdlog::shutdown();
+        return EXIT_FAILURE;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 6049f91aad1d27b6017d958bb8ad5cddf087cc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 15/40] fix: report a failure to write the output file

---
 src/driver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index 2df1570..3750886 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -464,6 +464,9 @@ void Driver::WriteViolationsToFile(string output_file) const
     }
     ofs << "\n]";
     ofs.close();
+    if (!ofs) {
+        throw std::runtime_error(fmt::format("Unable to write the violations to {}", output_file));
+    }
     Logger->debug(fmt::format("driver.cpp (WriteViolationsToFile) - Output written to {}", output_file));
 }
 
-- 
2.43.0


From 68da4de1f644e8115215828b3a6d42d4ac85b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 16/40] fix: write violations that contain bytes which are not
 UTF-8

dump() threw in the middle of the output file and left a truncated report.
---
 src/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/driver.cpp b/src/driver.cpp
index 3750886..3c3a2d1 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -459,7 +459,7 @@ void Driver::WriteViolationsToFile(string output_file) const
     for (const json &j : property_violations_) {
         if (c != 0)
             ofs << ",\n";
-        ofs << j.dump(4);
+        ofs << j.dump(4, ' ', false, json::error_handler_t::replace);
         c++;
     }
     ofs << "\n]";
-- 
2.43.0


From 48bf0b44cd56ad0a064a729a701618684452f98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 17/40] fix: write lint issues that contain bytes which are not
 UTF-8

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index dff5a85..42b79ee 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -205,7 +205,7 @@ void LintUtils::WriteIssueToFile(json &log_line, bool lint)
         std::ofstream out("lint.json", ios::app);
         if (i > 3)
             out << ",\n";
-        out << log_line.dump(4);
+        out << log_line.dump(4, ' ', false, json::error_handler_t::replace);
         out.close();
     }
 }
-- 
2.43.0


From 21c77544da88d7027fa0550a3c5bcece9bbff28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 18/40] fix: records without a type of their own (DS) are not
 an index into the type sets

A duplicate or out-of-zone DS record ended the run with an exception, and lookups
of a node with a DS record accessed the type sets out of bounds.
---
 src/resource-record.cpp | 4 +++-
 src/zone-graph.cpp      | 8 +++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/resource-record.cpp b/src/resource-record.cpp
index 8dbed6c..b18fb84 100644
--- a/src/resource-record.cpp
+++ b/src/resource-record.cpp
@@ -25,7 +25,9 @@ ostream &operator<<(ostream &os, const ResourceRecord &rr)
 string ResourceRecord::toString()
 {
     std::bitset<RRType::N> rrTypes;
-    rrTypes.set(type_);
+    if (type_ != RRType::N) {
+        rrTypes.set(type_);
+    }
     return LabelUtils::LabelsToString(name_) + "   " + TypeUtils::TypesToString(rrTypes) + "   " + rdata_.get();
 }
 
diff --git a/src/zone-graph.cpp b/src/zone-graph.cpp
index f3721d1..2a94fb0 100644
--- a/src/zone-graph.cpp
+++ b/src/zone-graph.cpp
@@ -271,7 +271,9 @@ std::bitset<RRType::N> zone::Graph::GetNodeRRTypes(const vector<ResourceRecord>
 {
     std::bitset<RRType::N> rrTypes;
     for (auto &record : rrs) {
-        rrTypes[record.get_type()] = 1;
+        if (record.get_type() != RRType::N) {
+            rrTypes[record.get_type()] = 1;
+        }
     }
     return rrTypes;
 }
@@ -301,7 +303,7 @@ bool zone::Graph::WildcardMatch(
                     }
                     return true; // If CNAME then other records would be ignored.
                 }
-                if (query.rrTypes[record.get_type()] == 1) {
+                if (record.get_type() != RRType::N && query.rrTypes[record.get_type()] == 1) {
                     matchingRRs.push_back(record);
                     queryTypesFound.set(record.get_type());
                 }
@@ -401,7 +403,7 @@ boost::optional<vector<zone::LookUpAnswer>> zone::Graph::QueryLookUpAtZone(const
         for (auto &record : (*this)[closest_encloser].rrs) {
             if (record.get_type() == RRType::NS) {
                 ns_records.push_back(record);
-            } else if (query.rrTypes[record.get_type()] == 1) {
+            } else if (record.get_type() != RRType::N && query.rrTypes[record.get_type()] == 1) {
                 query_types_found.set(record.get_type());
                 matching_rrs.push_back(record);
             }
-- 
2.43.0


From a8d8209e205ae0a098a7104e096d02cc5b3d7ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 19/40] fix: load zone files of the root zone, and keep the
 origin of the first SOA record

An origin without labels was taken for a missing SOA record and ended the run; a
second SOA record moved the origin, so that later records of the zone were dropped.
---
 src/zone-graph.cpp | 7 ++++---
 src/zone-graph.h   | 1 +
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/zone-graph.cpp b/src/zone-graph.cpp
index 2a94fb0..4e2a13a 100644
--- a/src/zone-graph.cpp
+++ b/src/zone-graph.cpp
@@ -125,8 +125,9 @@ tuple<zone::RRAddCode, boost::optional<zone::Graph::VertexDescriptor>> zone::Gra
         }
     }
     (*this)[node].rrs.push_back(record);
-    if (record.get_type() == RRType::SOA) {
+    if (record.get_type() == RRType::SOA && !origin_known_) {
         origin_ = record.get_name();
+        origin_known_ = true;
     }
     return {RRAddCode::SUCCESS, node};
 }
@@ -138,9 +139,9 @@ void zone::Graph::CheckGlueRecordsPresence(const Nameserver &ns)
 
 bool zone::Graph::CheckZoneMembership(const ResourceRecord &record, const string &filename)
 {
-    if (record.get_type() == RRType::SOA && origin_.size() == 0) {
+    if (record.get_type() == RRType::SOA && !origin_known_) {
         return true;
-    } else if (origin_.size() == 0) {
+    } else if (!origin_known_) {
         Logger->critical(fmt::format(
             "zone-graph.cpp (CheckZoneMembership) - Non SOA record is written before a SOA record in the zone file {}",
             filename));
diff --git a/src/zone-graph.h b/src/zone-graph.h
index 289f0b1..1471782 100644
--- a/src/zone-graph.h
+++ b/src/zone-graph.h
@@ -47,6 +47,7 @@ class Graph : public boost::adjacency_list<boost::vecS, boost::vecS, boost::dire
 
     int id_;
     vector<NodeLabel> origin_;
+    bool origin_known_ = false; // the origin of the root zone has no labels
     zone::Graph::VertexDescriptor root_ = 0;
     std::unordered_map<zone::Graph::VertexDescriptor, LabelToVertex> vertex_to_child_map_;
 
-- 
2.43.0


From f05e76caad62ef2473cb038472f24291c6af9eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 20/40] fix: split names with escaped backslashes and trailing
 escaped dots correctly

The dot after an escaped backslash separates labels, and a final escaped dot is
part of the last label, which was lost.
---
 src/utils.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 42b79ee..291006c 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -55,23 +55,22 @@ vector<NodeLabel> LabelUtils::StringToLabels(string domain_name)
     if (domain_name.length() == 0) {
         return tokens;
     }
-    if (domain_name[domain_name.length() - 1] != '.') {
-        domain_name += ".";
-    }
     // boost::algorithm::split(labels, name, boost::is_any_of(".")); // Avoiding this for the case where . is written
     // with \. and root zone.
     string previous = "";
+    bool escaped = false; // the current character follows a backslash, which is not itself escaped
     for (auto it = domain_name.begin(); it < domain_name.end(); ++it) {
-        if (*it == '.' && previous.length() > 0) {
-            if (previous.back() == '\\') {
-                previous += *it;
-            } else {
-                tokens.push_back(std::move(previous));
-                previous = "";
-            }
+        if (*it == '.' && previous.length() > 0 && !escaped) {
+            tokens.push_back(std::move(previous));
+            previous = "";
         } else {
             previous += *it;
         }
+        escaped = *it == '\\' && !escaped;
+    }
+    // The final dot is optional
+    if (previous.length() > 0 && previous != ".") {
+        tokens.push_back(std::move(previous));
     }
     std::reverse(tokens.begin(), tokens.end());
     return tokens;
-- 
2.43.0


From 369e2a0dc0b38fbc0c34cad2786e89b305448c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 21/40] fix: reject an empty list of types in a job

A query without types has no answers, and checking it read past the end of the
empty answer list.
---
 src/driver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index 3c3a2d1..f985bb9 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -227,6 +227,10 @@ void Driver::SetJob(const json &user_job)
         string name = property["PropertyName"];
         std::bitset<RRType::N> propertyTypes;
         if (property.find("Types") != property.end()) {
+            if (property["Types"].empty()) {
+                throw std::invalid_argument(
+                    fmt::format("The list of types of the property {} for {} is empty", name, d));
+            }
             for (auto typ : property["Types"]) {
                 current_job_.types_req.set(TypeUtils::StringToType(typ));
                 propertyTypes.set(TypeUtils::StringToType(typ));
-- 
2.43.0


From 8f5b8d5d02a6d07a9b7a5ea4214d4db9b20592d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 22/40] fix: do not take an owner name for a record type

A record whose owner is the name of a type (a, mx, ns, ...) was parsed as a record
of that type at the previous owner.
---
 src/zone-file-parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index e6a6724..57fe9db 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -339,7 +339,8 @@ struct Parser {
         int i = 0;
         for (auto &field : current_record) {
             string f(field);
-            if (f.length() < 6) {
+            // The first field is the owner name
+            if (i > 0 && f.length() < 6) {
                 boost::to_upper(f);
                 if (std::find(std::begin(types), std::end(types), f) != std::end(types)) {
                     return i;
-- 
2.43.0


From f843e73ad5440e34962b73407c5964b09bfb83e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 23/40] fix: parse the last record of a zone file without a
 final newline

---
 src/zone-file-parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 57fe9db..d1e5d8d 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -386,6 +386,10 @@ int Driver::ParseZoneFileAndExtendGraphs(string file, string nameserver, string
 
     // get the zone file input as a string.
     string str(ReadFromFile(file.c_str()));
+    // Records are processed at the end of their line
+    if (str.size() && str.back() != '\n') {
+        str += '\n';
+    }
     char const *first = str.c_str();
     char const *last = &first[str.size()];
 
-- 
2.43.0


From a7603177878f3eae45096ae29bbf80d0167f5d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 24/40] fix: accept every 32 bit TTL, and reject $TTL and
 $ORIGIN entries without a value

A TTL above 2^31-1 ended the run with an exception, a directive without argument
read past the end of the line's fields.
---
 src/zone-file-parser.cpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index d1e5d8d..509be79 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -97,6 +97,12 @@ struct Parser {
             if (paren_count == 0 && current_record.size() > 0) {
                 // Control entry $ORIGIN - Sets the origin for relative domain names
                 if (current_record[0].compare("$ORIGIN") == 0) {
+                    if (current_record.size() < 2) {
+                        Logger->error(fmt::format(
+                            "zone-file-parser.cpp (Parser()) - Invalid $ORIGIN entry at line - {} in file - {}", l,
+                            mc.file_name));
+                        return false;
+                    }
                     relative_domain_suffix = current_record[1];
                     boost::to_lower(relative_domain_suffix);
                     current_record.clear();
@@ -111,7 +117,14 @@ struct Parser {
                 }
                 // Control entry $TTL - The TTL for records without explicit TTL value
                 if (current_record[0].compare("$TTL") == 0) {
-                    default_values.set_ttl(std::stoi(current_record[1]));
+                    uint32_t default_ttl;
+                    if (current_record.size() < 2 || !ParseTTL(current_record[1], default_ttl)) {
+                        Logger->error(fmt::format(
+                            "zone-file-parser.cpp (Parser()) - Invalid $TTL entry at line - {} in file - {}", l,
+                            mc.file_name));
+                        return false;
+                    }
+                    default_values.set_ttl(default_ttl);
                     current_record.clear();
                     return true;
                 }
@@ -170,8 +183,7 @@ struct Parser {
                             class_ = 3;
                         } else if (boost::iequals(field, "IN")) {
                             class_ = 1;
-                        } else if (isInteger(field)) {
-                            ttl = std::stoi(field);
+                        } else if (ParseTTL(field, ttl)) {
                             if (default_values.get_ttl() == 0)
                                 default_values.set_ttl(ttl);
                         } else {
@@ -351,13 +363,17 @@ struct Parser {
         return index;
     }
 
-    inline bool isInteger(const std::string &s) const
+    // A TTL is an unsigned 32 bit number; ttl is left as it is if the field is none
+    inline bool ParseTTL(const std::string &s, uint32_t &ttl) const
     {
-        if (s.empty() || ((!isdigit(s[0])) && (s[0] != '-') && (s[0] != '+')))
+        if (s.empty() || s.find_first_not_of("0123456789") != string::npos)
             return false;
-        char *p;
-        strtol(s.c_str(), &p, 10);
-        return (*p == 0);
+        errno = 0;
+        unsigned long long value = strtoull(s.c_str(), nullptr, 10);
+        if (errno || value > UINT32_MAX)
+            return false;
+        ttl = static_cast<uint32_t>(value);
+        return true;
     }
 };
 
-- 
2.43.0


From 6c63b8e5020c2277a19fa3c6b66be1081130e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 25/40] fix: default TTLs to the $TTL entry, even if it is
 zero, or to the last stated TTL

The first explicit TTL replaced a '$TTL 0' and was used for all later records, so
that ZeroTTL missed records.
---
 src/zone-file-parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 509be79..e418242 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -15,6 +15,7 @@ struct MiniContext {
     string file_name = "";
     bool found_SOA = false;
     bool lint = false;
+    bool ttl_directive = false;
     int rrs_parsed = 0;
     std::unordered_map<string, long> type_to_count;
 };
@@ -125,6 +126,7 @@ struct Parser {
                         return false;
                     }
                     default_values.set_ttl(default_ttl);
+                    mc.ttl_directive = true;
                     current_record.clear();
                     return true;
                 }
@@ -184,7 +186,8 @@ struct Parser {
                         } else if (boost::iequals(field, "IN")) {
                             class_ = 1;
                         } else if (ParseTTL(field, ttl)) {
-                            if (default_values.get_ttl() == 0)
+                            // Without a $TTL entry an omitted TTL is the last one stated (RFC 1035, RFC 2308)
+                            if (!mc.ttl_directive)
                                 default_values.set_ttl(ttl);
                         } else {
                             Logger->warn(fmt::format(
-- 
2.43.0


From 9047df5232fe275cc75c8f4c70500f81164383a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 26/40] fix: a blank owner is the owner of the previous line,
 whatever its type

Lines with a record type that is not handled did not count, so that the following
lines without an owner went to the wrong name, and skipped lines left a relative
owner name behind. Relative names below the root get no second dot.
---
 src/zone-file-parser.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index e418242..93279ef 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -146,6 +146,12 @@ struct Parser {
                     }
                 }
 
+                // Remember the owner, also if the record itself is not handled
+                if (current_record[0].size() > 0) {
+                    current_record[0] = MakeAbsolute(current_record[0], relative_domain_suffix);
+                    default_values.set_name(current_record[0]);
+                }
+
                 // Search for the index where the RR type is found
                 int typeIndex = GetTypeIndex(current_record);
                 if (typeIndex == -1) {
@@ -176,7 +182,6 @@ struct Parser {
                         if (i == 0) {
                             if (field.size() > 0) {
                                 name = field;
-                                default_values.set_name(field);
                             }
                         } else if (boost::iequals(field, "CH")) {
                             Logger->warn(fmt::format(
@@ -209,10 +214,6 @@ struct Parser {
                         relative_domain_suffix = name;
                     }
                 }
-                if (!boost::algorithm::ends_with(name, ".")) {
-                    name = name + "." + relative_domain_suffix;
-                    default_values.set_name(name);
-                }
                 // compare returns zero when equal
                 if (!type.compare("NS") || !type.compare("CNAME") || !type.compare("DNAME") || !type.compare("MX")) {
                     if (!boost::algorithm::ends_with(rdata, ".")) {
@@ -345,6 +346,14 @@ struct Parser {
         return true;
     }
 
+    string MakeAbsolute(const string &name, const string &suffix) const
+    {
+        if (boost::algorithm::ends_with(name, ".")) {
+            return name;
+        }
+        return name + "." + (suffix == "." ? "" : suffix);
+    }
+
     int GetTypeIndex(vector<string> &current_record) const
     {
         std::vector<string> types{"A",    "MX",  "NS",    "CNAME", "SOA",  "PTR", "TXT",
-- 
2.43.0


From 096b48c88fe5644700a2ed08d1d1961cc40b8eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 27/40] fix: expand '@' in the targets of NS, CNAME, DNAME and
 MX records

---
 src/zone-file-parser.cpp | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 93279ef..7e052f8 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -216,21 +216,12 @@ struct Parser {
                 }
                 // compare returns zero when equal
                 if (!type.compare("NS") || !type.compare("CNAME") || !type.compare("DNAME") || !type.compare("MX")) {
-                    if (!boost::algorithm::ends_with(rdata, ".")) {
-                        // if (relativeDomainSuffix.length() > 0) {
-                        //	if (rdata.compare("@") == 0) {
-                        //		rdata = relativeDomainSuffix;
-                        //	}
-                        //	else {
-                        //		rdata = rdata + "." + relativeDomainSuffix;
-                        //	}
-                        //}
-                        // else {
-                        //	cout << "Encountered @ symbol but relative domain is empty for rdata";
-                        //	currentRecord.clear();
-                        //	return false;
-                        //}
-                        rdata = rdata + "." + relative_domain_suffix;
+                    // The target is the last field
+                    size_t target = rdata.find_last_of(' ') + 1;
+                    if (rdata.substr(target) == "@") {
+                        rdata = rdata.substr(0, target) + relative_domain_suffix;
+                    } else {
+                        rdata = rdata.substr(0, target) + MakeAbsolute(rdata.substr(target), relative_domain_suffix);
                     }
                 }
                 boost::to_lower(rdata);
-- 
2.43.0


From 7baeb9136eea5d6fb59ebfafed2b04169c06272d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 28/40] fix: a relative $ORIGIN is relative to the current
 origin

---
 src/zone-file-parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 7e052f8..aec14d7 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -104,7 +104,7 @@ struct Parser {
                             mc.file_name));
                         return false;
                     }
-                    relative_domain_suffix = current_record[1];
+                    relative_domain_suffix = MakeAbsolute(current_record[1], relative_domain_suffix);
                     boost::to_lower(relative_domain_suffix);
                     current_record.clear();
                     return true;
-- 
2.43.0


From f4e4b7ef6f214a1267651a8400928f92b05f6e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 29/40] fix: a top server without zone files is unknown, as on
 a referral

---
 src/interpretation-graph.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/interpretation-graph.cpp b/src/interpretation-graph.cpp
index 4097c17..77d300a 100644
--- a/src/interpretation-graph.cpp
+++ b/src/interpretation-graph.cpp
@@ -462,12 +462,13 @@ void interpretation::Graph::StartFromTopNameservers(
             // QueryResolver"));
             QueryResolver(context.zoneId_to_zone.find(start.get())->second, node.get(), context);
         } else if (node && !start) {
+            // A server without any zone file is not known, as in NsSubRoutine
+            ReturnTag tag = context.nameserver_zoneIds_map.count(ns) ? ReturnTag::REFUSED : ReturnTag::NSNOTFOUND;
             vector<zone::LookUpAnswer> answer;
-            answer.push_back(
-                std::make_tuple(ReturnTag::REFUSED, (*this)[node.get()].query.rrTypes, vector<ResourceRecord>{}));
+            answer.push_back(std::make_tuple(tag, (*this)[node.get()].query.rrTypes, vector<ResourceRecord>{}));
             (*this)[node.get()].answer = answer;
             // Logger->debug(fmt::format("interpretation-graph (StartFromTopNameservers) No relevant zone found and
-            // answer is updated to REFUSED"));
+            // answer is updated to REFUSED or NSNOTFOUND"));
         }
     }
 }
-- 
2.43.0


From ee6ea596ddc68d6773e3267cbea6b0089130bf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:49 +0000
Subject: [PATCH 30/40] fix: reject jobs that are no list, unknown properties
 and limits that are no count

---
 bin/groot.cpp  | 3 +++
 src/driver.cpp | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/bin/groot.cpp b/bin/groot.cpp
index 5c1f7ec..206a398 100644
--- a/bin/groot.cpp
+++ b/bin/groot.cpp
@@ -37,6 +37,9 @@ void Main(string directory, string jobs_file, string output_file, bool lint)
         std::ifstream i(jobs_file);
         json jobs;
         i >> jobs;
+        if (!jobs.is_array()) {
+            throw std::invalid_argument(fmt::format("{} is not a list of jobs", jobs_file));
+        }
 
         Logger->debug("groot.cpp (Main) - Successfully read jobs.json file");
 
diff --git a/src/driver.cpp b/src/driver.cpp
index f985bb9..5d9107c 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -223,6 +223,9 @@ void Driver::SetJob(const json &user_job)
     current_job_.node_functions.clear();
     current_job_.types_req = {};
 
+    if (!user_job["Properties"].is_array()) {
+        throw std::invalid_argument(fmt::format("The properties of the job for {} are not a list", d));
+    }
     for (auto &property : user_job["Properties"]) {
         string name = property["PropertyName"];
         std::bitset<RRType::N> propertyTypes;
@@ -238,6 +241,10 @@ void Driver::SetJob(const json &user_job)
         } else {
             current_job_.types_req.set(RRType::NS);
         }
+        if ((name == "Hops" || name == "Rewrites") &&
+            (!property["Value"].is_number_integer() || property["Value"] < 0)) {
+            throw std::invalid_argument(fmt::format("The value of the property {} for {} is not a count", name, d));
+        }
         if (name == "ResponseConsistency") {
             auto la = [propertyTypes](
                           const interpretation::Graph &graph,
@@ -375,6 +382,8 @@ void Driver::SetJob(const json &user_job)
             current_job_.check_structural_delegations = true;
         } else if (name == "DNAMESubstitutionCheck") {
             current_job_.path_functions.push_back(interpretation::Graph::Properties::DNAMESubstitutionExceedesLength);
+        } else {
+            throw std::invalid_argument(fmt::format("The job for {} has an unknown property, {}", d, name));
         }
     }
 }
-- 
2.43.0


From b20e5545428510ac3524b6b12d0bcc9e14e5ffbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:47 +0000
Subject: [PATCH 31/40] fix: a job without a required field is an error, also
 in a release build

---
 src/driver.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/driver.cpp b/src/driver.cpp
index 5d9107c..f066d14 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -211,23 +211,23 @@ long Driver::SetContext(const json &metadata, string directory, bool lint)
 
 void Driver::SetJob(const json &user_job)
 {
-    string d = string(user_job["Domain"]);
+    string d = string(user_job.at("Domain"));
     boost::to_lower(d);
     current_job_.stats.ec_count = 0;
     current_job_.stats.interpretation_edges.clear();
     current_job_.stats.interpretation_vertices.clear();
     current_job_.user_input_domain = d;
     current_job_.check_structural_delegations = false;
-    current_job_.check_subdomains = user_job["SubDomain"];
+    current_job_.check_subdomains = user_job.at("SubDomain");
     current_job_.path_functions.clear();
     current_job_.node_functions.clear();
     current_job_.types_req = {};
 
-    if (!user_job["Properties"].is_array()) {
+    if (!user_job.at("Properties").is_array()) {
         throw std::invalid_argument(fmt::format("The properties of the job for {} are not a list", d));
     }
-    for (auto &property : user_job["Properties"]) {
-        string name = property["PropertyName"];
+    for (auto &property : user_job.at("Properties")) {
+        string name = property.at("PropertyName");
         std::bitset<RRType::N> propertyTypes;
         if (property.find("Types") != property.end()) {
             if (property["Types"].empty()) {
@@ -242,7 +242,7 @@ void Driver::SetJob(const json &user_job)
             current_job_.types_req.set(RRType::NS);
         }
         if ((name == "Hops" || name == "Rewrites") &&
-            (!property["Value"].is_number_integer() || property["Value"] < 0)) {
+            (!property.at("Value").is_number_integer() || property.at("Value") < 0)) {
             throw std::invalid_argument(fmt::format("The value of the property {} for {} is not a count", name, d));
         }
         if (name == "ResponseConsistency") {
@@ -263,7 +263,7 @@ void Driver::SetJob(const json &user_job)
             current_job_.node_functions.push_back(la);
         } else if (name == "ResponseValue") {
             std::set<string> values;
-            for (string v : property["Value"]) {
+            for (string v : property.at("Value")) {
                 boost::to_lower(v);
                 values.insert(v);
             }
@@ -279,17 +279,17 @@ void Driver::SetJob(const json &user_job)
                 Logger->error(fmt::format(
                     "driver.cpp (SetJob) - Skipping ResponseValue property check for {} as the "
                     "Values is an empty list.",
-                    string(user_job["Domain"])));
+                    string(user_job.at("Domain"))));
             }
         } else if (name == "Hops") {
-            auto l = [num_hops = property["Value"]](
+            auto l = [num_hops = property.at("Value")](
                          const interpretation::Graph &graph, const interpretation::Graph::Path &p,
                          moodycamel::ConcurrentQueue<json> &json_queue) {
                 interpretation::Graph::Properties::NumberOfHops(graph, p, json_queue, num_hops);
             };
             current_job_.path_functions.push_back(l);
         } else if (name == "Rewrites") {
-            auto l = [num_rewrites = property["Value"]](
+            auto l = [num_rewrites = property.at("Value")](
                          const interpretation::Graph &graph, const interpretation::Graph::Path &p,
                          moodycamel::ConcurrentQueue<json> &json_queue) {
                 interpretation::Graph::Properties::NumberOfRewrites(graph, p, json_queue, num_rewrites);
@@ -315,7 +315,7 @@ void Driver::SetJob(const json &user_job)
             current_job_.path_functions.push_back(l);
         } else if (name == "QueryRewrite") {
             vector<vector<NodeLabel>> allowed_domains;
-            for (string v : property["Value"]) {
+            for (string v : property.at("Value")) {
                 boost::to_lower(v);
                 allowed_domains.push_back(LabelUtils::StringToLabels(v));
             }
@@ -329,11 +329,11 @@ void Driver::SetJob(const json &user_job)
             } else {
                 Logger->error(fmt::format(
                     "driver.cpp (SetJob) - Skipping QueryRewrite property check for {} as the Values is an empty list.",
-                    string(user_job["Domain"])));
+                    string(user_job.at("Domain"))));
             }
         } else if (name == "NameserverContact") {
             vector<vector<NodeLabel>> allowed_domains;
-            for (string v : property["Value"]) {
+            for (string v : property.at("Value")) {
                 boost::to_lower(v);
                 allowed_domains.push_back(LabelUtils::StringToLabels(v));
             }
@@ -348,13 +348,13 @@ void Driver::SetJob(const json &user_job)
                 Logger->error(fmt::format(
                     "driver.cpp (SetJob) - Skipping NameServerContact property check for {} as "
                     "the Values is an empty list.",
-                    string(user_job["Domain"])));
+                    string(user_job.at("Domain"))));
             }
         } else if (name == "RewriteBlackholing") {
             current_job_.path_functions.push_back(interpretation::Graph::Properties::RewriteBlackholing);
         } else if (name == "AllAliases") {
             vector<vector<NodeLabel>> canonical_names;
-            for (string v : property["Value"]) {
+            for (string v : property.at("Value")) {
                 boost::to_lower(v);
                 canonical_names.push_back(LabelUtils::StringToLabels(v));
             }
@@ -368,7 +368,7 @@ void Driver::SetJob(const json &user_job)
             } else {
                 Logger->error(fmt::format(
                     "driver.cpp (SetJob) - Skipping AlliAliases property check for {} as the Values is an empty list.",
-                    string(user_job["Domain"])));
+                    string(user_job.at("Domain"))));
             }
         } else if (name == "ZeroTTL") {
             auto la = [propertyTypes](
-- 
2.43.0


From 57c4677a59aebb23867ca20e40c02d577165b502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:02 +0000
Subject: [PATCH 32/40] fix: the median in the statistics is the median, also
 of few values

---
 src/driver.cpp | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/driver.cpp b/src/driver.cpp
index f066d14..3c5d9e0 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -1,12 +1,9 @@
 #include "driver.h"
 #include "ec-task.h"
 #include "structural-task.h"
-#include <boost/accumulators/accumulators.hpp>
-#include <boost/accumulators/statistics.hpp>
 #include <boost/algorithm/string.hpp>
 #include <boost/filesystem.hpp>
-
-using namespace boost::accumulators;
+#include <numeric>
 
 void Driver::GenerateECsAndCheckProperties()
 {
@@ -442,23 +439,23 @@ void Driver::SetJob(string &domain_name)
     // current_job_.check_structural_delegations = true;
 }
 
+string Summary(std::vector<int> values)
+{
+    if (values.empty()) {
+        return "none";
+    }
+    std::sort(values.begin(), values.end());
+    double mean = std::accumulate(values.begin(), values.end(), 0.0) / values.size();
+    double median = (values[(values.size() - 1) / 2] + values[values.size() / 2]) / 2.0;
+    return fmt::format("Max={}, Min={}, Mean={}, Median={}", values.back(), values.front(), mean, median);
+}
+
 void Driver::WriteStatsForAJob()
 {
 
     Logger->info(fmt::format("Number of ECs: {}", current_job_.stats.ec_count));
-    /*auto [min, max] = std::minmax_element(
-        begin(current_job_.stats.interpretation_vertices), end(current_job_.stats.interpretation_vertices));*/
-    accumulator_set<double, features<tag::mean, tag::median, tag::min, tag::max>> acc;
-    for_each(
-        begin(current_job_.stats.interpretation_vertices), end(current_job_.stats.interpretation_vertices), ref(acc));
-    Logger->info(fmt::format(
-        "Interpretation Graph Vertices: Max={}, Min={}, Mean={}, Median={}", boost::accumulators::max(acc),
-        boost::accumulators::min(acc), mean(acc), median(acc)));
-    acc = {};
-    for_each(begin(current_job_.stats.interpretation_edges), end(current_job_.stats.interpretation_edges), ref(acc));
-    Logger->info(fmt::format(
-        "Interpretation Graph Edges: Max={}, Min={}, Mean={}, Median={}", boost::accumulators::max(acc),
-        boost::accumulators::min(acc), mean(acc), median(acc)));
+    Logger->info(fmt::format("Interpretation Graph Vertices: {}", Summary(current_job_.stats.interpretation_vertices)));
+    Logger->info(fmt::format("Interpretation Graph Edges: {}", Summary(current_job_.stats.interpretation_edges)));
 }
 
 void Driver::WriteViolationsToFile(string output_file) const
-- 
2.43.0


From 83233b99f3132eacc757cf474ad50d4dfef62333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:31 +0000
Subject: [PATCH 33/40] fix: a zone file is a zone when its SOA record was
 added, however its owner is written

---
 src/zone-file-parser.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index aec14d7..433ff85 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -208,11 +208,9 @@ struct Parser {
                 rdata = rdata.substr(0, rdata.size() - 1);
                 if (name.length() == 0) {
                     name = LabelUtils::LabelsToString(default_values.get_name());
-                } else if (type == "SOA") {
-                    mc.found_SOA = true;
-                    if (relative_domain_suffix.size() == 0) {
-                        relative_domain_suffix = name;
-                    }
+                }
+                if (type == "SOA" && relative_domain_suffix.size() == 0) {
+                    relative_domain_suffix = name;
                 }
                 // compare returns zero when equal
                 if (!type.compare("NS") || !type.compare("CNAME") || !type.compare("DNAME") || !type.compare("MX")) {
@@ -267,6 +265,9 @@ struct Parser {
                             if (code == zone::RRAddCode::SUCCESS) {
                                 label_graph.AddResourceRecord(RR, z.get_id(), vertexid.get());
                                 mc.type_to_count[type]++;
+                                if (RR.get_type() == RRType::SOA) {
+                                    mc.found_SOA = true;
+                                }
                                 if (boost::algorithm::starts_with(name, "*.")) {
                                     mc.type_to_count["Wildcard"]++;
                                 }
-- 
2.43.0


From 0e1860c8c3a62316914af4d8d865e2b6772b4a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:29 +0000
Subject: [PATCH 34/40] fix: complete the relative names in PTR, SRV, SOA, NSEC
 and RRSIG data

---
 src/zone-file-parser.cpp | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 433ff85..ab786f0 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -175,9 +175,6 @@ struct Parser {
                     return true;
                 }
                 for (auto &field : current_record) {
-                    if (i > typeIndex) {
-                        rdata += field + " ";
-                    }
                     if (i < typeIndex) {
                         if (i == 0) {
                             if (field.size() > 0) {
@@ -205,23 +202,17 @@ struct Parser {
                     }
                     i++;
                 }
-                rdata = rdata.substr(0, rdata.size() - 1);
                 if (name.length() == 0) {
                     name = LabelUtils::LabelsToString(default_values.get_name());
                 }
                 if (type == "SOA" && relative_domain_suffix.size() == 0) {
                     relative_domain_suffix = name;
                 }
-                // compare returns zero when equal
-                if (!type.compare("NS") || !type.compare("CNAME") || !type.compare("DNAME") || !type.compare("MX")) {
-                    // The target is the last field
-                    size_t target = rdata.find_last_of(' ') + 1;
-                    if (rdata.substr(target) == "@") {
-                        rdata = rdata.substr(0, target) + relative_domain_suffix;
-                    } else {
-                        rdata = rdata.substr(0, target) + MakeAbsolute(rdata.substr(target), relative_domain_suffix);
-                    }
+                CompleteRdataNames(current_record, typeIndex, type, relative_domain_suffix);
+                for (size_t field = typeIndex + 1; field < current_record.size(); field++) {
+                    rdata += current_record[field] + " ";
                 }
+                rdata = rdata.substr(0, rdata.size() - 1);
                 boost::to_lower(rdata);
                 boost::to_lower(name);
                 mc.rrs_parsed++;
@@ -346,6 +337,22 @@ struct Parser {
         return name + "." + (suffix == "." ? "" : suffix);
     }
 
+    // Completes the names that are fields of the record's data, which follow the type
+    void CompleteRdataNames(vector<string> &record, size_t type_index, const string &type, const string &suffix) const
+    {
+        static const std::unordered_map<string, vector<size_t>> name_fields{
+            {"NS", {0}},  {"CNAME", {0}},  {"DNAME", {0}}, {"PTR", {0}},  {"MX", {1}},
+            {"SRV", {3}}, {"SOA", {0, 1}}, {"NSEC", {0}},  {"RRSIG", {7}}};
+        auto it = name_fields.find(type);
+        if (it == name_fields.end())
+            return;
+        for (size_t field : it->second) {
+            size_t index = type_index + 1 + field;
+            if (index < record.size())
+                record[index] = record[index] == "@" ? suffix : MakeAbsolute(record[index], suffix);
+        }
+    }
+
     int GetTypeIndex(vector<string> &current_record) const
     {
         std::vector<string> types{"A",    "MX",  "NS",    "CNAME", "SOA",  "PTR", "TXT",
-- 
2.43.0


From af2901fe44a6d59a3756a12e6f9b2d238b928ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:29 +0000
Subject: [PATCH 35/40] fix: a backslash escapes quotes, semicolons and
 parentheses anywhere in a zone file

---
 src/zone-file-parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index ab786f0..11f0bd5 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -34,8 +34,9 @@ enum TokenIds {
 template <typename Lexer> struct zone_file_tokens : lex::lexer<Lexer> {
     zone_file_tokens()
     {
-        this->self.add("\\\"[^\\\"]*\\\"", ID_TEXT_WORD)(";[^\n]+", ID_COMMENT)(
-            "((\\\\\\()*(\\\\\\))*[^ ;\t\r\n\\(\\)\\\"]+)+",
+        // A backslash takes any special meaning from the character after it
+        this->self.add("\\\"(\\\\(.|\r|\n)|[^\\\"\\\\])*\\\"", ID_TEXT_WORD)(";[^\n]+", ID_COMMENT)(
+            "(\\\\[^\r\n]|[^ ;\t\r\n\\(\\)\\\"\\\\])+\\\\?|\\\\",
             ID_WORD)("\\(", ID_LPAREN)("\\)", ID_RPAREN)("\n", ID_EOL)("[ \t]+", ID_WHITESPACE)(".", ID_OTHER);
     }
 };
-- 
2.43.0


From 1ac37e6332a25670851c7de66b3c05efbd380e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:30 +0000
Subject: [PATCH 36/40] fix: recognise control entries in any letter case

---
 src/zone-file-parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 11f0bd5..170b51f 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -98,7 +98,7 @@ struct Parser {
             ++l;
             if (paren_count == 0 && current_record.size() > 0) {
                 // Control entry $ORIGIN - Sets the origin for relative domain names
-                if (current_record[0].compare("$ORIGIN") == 0) {
+                if (boost::iequals(current_record[0], "$ORIGIN")) {
                     if (current_record.size() < 2) {
                         Logger->error(fmt::format(
                             "zone-file-parser.cpp (Parser()) - Invalid $ORIGIN entry at line - {} in file - {}", l,
@@ -111,14 +111,14 @@ struct Parser {
                     return true;
                 }
                 // Control entry $INCLUDE - Inserts the named file( currently unhandled)
-                if (current_record[0].compare("$INCLUDE") == 0) {
+                if (boost::iequals(current_record[0], "$INCLUDE")) {
                     Logger->error(fmt::format(
                         "zone-file-parser.cpp (Parser()) - Found $INCLUDE entry at line - {} in file - {}", l,
                         mc.file_name));
                     return false;
                 }
                 // Control entry $TTL - The TTL for records without explicit TTL value
-                if (current_record[0].compare("$TTL") == 0) {
+                if (boost::iequals(current_record[0], "$TTL")) {
                     uint32_t default_ttl;
                     if (current_record.size() < 2 || !ParseTTL(current_record[1], default_ttl)) {
                         Logger->error(fmt::format(
-- 
2.43.0


From 631c1d5d44df6417d7490140d09ade98f25caaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:30 +0000
Subject: [PATCH 37/40] fix: a name that ends in an escaped dot is relative

---
 src/zone-file-parser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 170b51f..fdcd300 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -332,7 +332,13 @@ struct Parser {
 
     string MakeAbsolute(const string &name, const string &suffix) const
     {
-        if (boost::algorithm::ends_with(name, ".")) {
+        bool absolute = false; // a final dot that follows a backslash belongs to the last label
+        bool escaped = false;
+        for (char c : name) {
+            absolute = c == '.' && !escaped;
+            escaped = c == '\\' && !escaped;
+        }
+        if (absolute) {
             return name;
         }
         return name + "." + (suffix == "." ? "" : suffix);
-- 
2.43.0


From 830044561623baf6c3f0abd97f90586776b4f4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:25 +0000
Subject: [PATCH 38/40] fix: a TTL stated by a record that is not handled is
 the last one stated too

---
 src/zone-file-parser.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index fdcd300..4dd93cd 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -153,6 +153,17 @@ struct Parser {
                     default_values.set_name(current_record[0]);
                 }
 
+                // Without a $TTL entry an omitted TTL is the last one stated (RFC 1035, RFC 2308), also by a record that
+                // is not handled
+                for (size_t f = 1; f < current_record.size() && !mc.ttl_directive; f++) {
+                    uint32_t stated;
+                    if (ParseTTL(current_record[f], stated)) {
+                        default_values.set_ttl(stated);
+                    } else if (!boost::iequals(current_record[f], "IN") && !boost::iequals(current_record[f], "CH")) {
+                        break;
+                    }
+                }
+
                 // Search for the index where the RR type is found
                 int typeIndex = GetTypeIndex(current_record);
                 if (typeIndex == -1) {
@@ -188,11 +199,7 @@ struct Parser {
                             class_ = 3;
                         } else if (boost::iequals(field, "IN")) {
                             class_ = 1;
-                        } else if (ParseTTL(field, ttl)) {
-                            // Without a $TTL entry an omitted TTL is the last one stated (RFC 1035, RFC 2308)
-                            if (!mc.ttl_directive)
-                                default_values.set_ttl(ttl);
-                        } else {
+                        } else if (!ParseTTL(field, ttl)) {
                             Logger->warn(fmt::format(
                                 "zone-file-parser.cpp (Parser()) - RR at line {} in file {} is "
                                 "not following the DNS grammar",
-- 
2.43.0


From 5636fe5e65b1e793a39b2bb2b8bfc5244d6fab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:36 +0000
Subject: [PATCH 39/40] fix: compare allowed hops and rewrites in full width

The allowed numbers of a job were converted to int, so that values of 2^31
and more became negative or small: Rewrites reported every class, Hops with
2^32 behaved like 0.
---
 src/interpretation-properties.h | 8 ++++++--
 src/properties.cpp              | 6 +++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/interpretation-properties.h b/src/interpretation-properties.h
index 85c4922..f14666e 100644
--- a/src/interpretation-properties.h
+++ b/src/interpretation-properties.h
@@ -176,12 +176,16 @@ class Graph : public boost::adjacency_list<boost::vecS, boost::vecS, boost::bidi
             const Path &,
             moodycamel::ConcurrentQueue<json> &,
             vector<vector<NodeLabel>>);
-        static void NumberOfHops(const interpretation::Graph &, const Path &, moodycamel::ConcurrentQueue<json> &, int);
+        static void NumberOfHops(
+            const interpretation::Graph &,
+            const Path &,
+            moodycamel::ConcurrentQueue<json> &,
+            std::size_t);
         static void NumberOfRewrites(
             const interpretation::Graph &,
             const Path &,
             moodycamel::ConcurrentQueue<json> &,
-            int);
+            std::size_t);
         static void QueryRewrite(
             const interpretation::Graph &,
             const Path &,
diff --git a/src/properties.cpp b/src/properties.cpp
index 0ba2b5a..24f9a84 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -506,7 +506,7 @@ void interpretation::Graph::Properties::NumberOfHops(
     const interpretation::Graph &graph,
     const Path &p,
     moodycamel::ConcurrentQueue<json> &json_queue,
-    int num_hops)
+    std::size_t num_hops)
 {
     /*
         Number of Hops = Number of name servers in the path.
@@ -537,13 +537,13 @@ void interpretation::Graph::Properties::NumberOfRewrites(
     const interpretation::Graph &graph,
     const Path &p,
     moodycamel::ConcurrentQueue<json> &json_queue,
-    int num_rewrites)
+    std::size_t num_rewrites)
 {
     /*
         Number of Rewrites = Number of nodes on the path with return tag AnsQ
     */
     bool incomplete = false;
-    int rewrites = 0;
+    std::size_t rewrites = 0;
     for (auto vd : p) {
         if (graph[vd].ns != "") {
             if (std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::REWRITE) {
-- 
2.43.0


From 4e8ef44a15b96973baadf6040a12a4e073284423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:57 +0000
Subject: [PATCH 40/40] fix: fail when the lint report can not be written

With --lint a lint.json that could not be opened, read back or written was
left incomplete or malformed while the program exited with status zero.
---
 bin/groot.cpp |  6 ++++++
 src/utils.cpp | 11 ++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/bin/groot.cpp b/bin/groot.cpp
index 206a398..53ca310 100644
--- a/bin/groot.cpp
+++ b/bin/groot.cpp
@@ -159,6 +159,9 @@ int main(int argc, const char **argv)
             fs.open("lint.json", ios::out);
             fs << "[\n";
             fs.close();
+            if (!fs) {
+                throw std::runtime_error("Unable to write to lint.json");
+            }
         }
 
         // TODO: validate that the directory and property files exist
@@ -171,6 +174,9 @@ int main(int argc, const char **argv)
             fs.open("lint.json", ios::app);
             fs << "\n]";
             fs.close();
+            if (!fs) {
+                throw std::runtime_error("Unable to write to lint.json");
+            }
         }
         return 0;
     } catch (exception &e) {
diff --git a/src/utils.cpp b/src/utils.cpp
index 291006c..db6e5e7 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -197,15 +197,20 @@ void LintUtils::WriteIssueToFile(json &log_line, bool lint)
                 if (i > 3)
                     break;
             }
-            in.close();
-        } else {
-            Logger->error("Linting enabled but unable to open the lint.txt file for reading");
         }
+        // A getline that ends the loop at the end of the file is no error, but a read that failed is
+        if (!in.is_open() || in.bad()) {
+            throw std::runtime_error("Unable to read lint.json");
+        }
+        in.close();
         std::ofstream out("lint.json", ios::app);
         if (i > 3)
             out << ",\n";
         out << log_line.dump(4, ' ', false, json::error_handler_t::replace);
         out.close();
+        if (!out) {
+            throw std::runtime_error("Unable to write to lint.json");
+        }
     }
 }
 
-- 
2.43.0

