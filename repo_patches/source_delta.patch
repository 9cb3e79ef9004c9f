From fc03f19a08332e5174bed3ca95ca070f0e3199ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 01/34] fix: decode escape sequences when joining the parts of
 a string literal

ast_node::unescaped_view() joined the source text of the parts of a string, so
"tab\there" became tabthere.
---
 src/SyntaxTree.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index b323f54..9b87205 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -55,12 +55,12 @@ std::string_view ast_node::unescaped_view() const
 				children.cend(),
 				size_t(0),
 				[](size_t total, const std::unique_ptr<ast_node>& child) {
-					return total + child->string_view().size();
+					return total + child->unescaped_view().size();
 				}));
 
 			for (const auto& child : children)
 			{
-				joined.append(child->string_view());
+				joined.append(child->unescaped_view());
 			}
 
 			const_cast<ast_node*>(this)->_unescaped =
@@ -69,7 +69,7 @@ std::string_view ast_node::unescaped_view() const
 		else if (!children.empty())
 		{
 			const_cast<ast_node*>(this)->_unescaped =
-				std::make_unique<unescaped_t>(children.front()->string_view());
+				std::make_unique<unescaped_t>(children.front()->unescaped_view());
 		}
 		else if (has_content() && is_type<escaped_unicode>())
 		{
-- 
2.43.0


From c642919cb42c85ade2b8b06290ef8174345102d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 02/34] fix: evaluate string literals once, while parsing

unescaped_view() filled its cache from const methods on first use. Two threads
of one request which evaluate the same literal (e.g. the argument of a field in
two list elements, resolved with std::launch::async) raced on it, and one of
them could read the freed string of the other.
---
 src/SyntaxTree.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index 9b87205..7c52e06 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -12,6 +12,7 @@
 #include <memory>
 #include <numeric>
 #include <tuple>
+#include <utility>
 
 using namespace std::literals;
 
@@ -236,6 +237,12 @@ struct ast_selector<block_quote_character> : std::true_type
 template <>
 struct ast_selector<string_value> : std::true_type
 {
+	static void transform(std::unique_ptr<ast_node>& n)
+	{
+		// Fill in the cached value while there is only one thread which knows about this node,
+		// several threads may evaluate the same literal at the same time later on.
+		static_cast<void>(std::as_const(*n).unescaped_view());
+	}
 };
 
 template <>
-- 
2.43.0


From 25c0e325b5bb4955a9bce54d1d2604b413d556a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 03/34] fix: a skipped field does not hide a later field with
 the same response name

The response name was recorded before @skip and @include were evaluated, so in
{ a @skip(if: true) a } the second selection was dropped as a duplicate.
---
 src/GraphQLService.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index e1c409a..427ba2d 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -852,6 +852,17 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 		alias = name;
 	}
 
+	DirectiveVisitor directiveVisitor(_variables);
+
+	peg::on_first_child<peg::directives>(field, [&directiveVisitor](const peg::ast_node& child) {
+		directiveVisitor.visit(child);
+	});
+
+	if (directiveVisitor.shouldSkip())
+	{
+		return;
+	}
+
 	if (!_names.emplace(alias).second)
 	{
 		// Skip resolving fields which map to the same response name as a field we've already
@@ -879,17 +890,6 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 		return;
 	}
 
-	DirectiveVisitor directiveVisitor(_variables);
-
-	peg::on_first_child<peg::directives>(field, [&directiveVisitor](const peg::ast_node& child) {
-		directiveVisitor.visit(child);
-	});
-
-	if (directiveVisitor.shouldSkip())
-	{
-		return;
-	}
-
 	response::Value arguments(response::Type::Map);
 
 	peg::on_first_child<peg::arguments>(field, [this, &arguments](const peg::ast_node& child) {
-- 
2.43.0


From 85025d26cd0f091bae51cc5ab9151090aa48cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 04/34] fix: evaluate @include also if there is a @skip on the
 same selection

@skip(if: false) @include(if: false) included the selection.
---
 src/GraphQLService.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 427ba2d..6bf9cc1 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -451,15 +451,7 @@ bool DirectiveVisitor::shouldSkip() const
 			argumentFalse = !argumentTrue;
 		}
 
-		if (argumentTrue)
-		{
-			return skip;
-		}
-		else if (argumentFalse)
-		{
-			return !skip;
-		}
-		else
+		if (!argumentTrue && !argumentFalse)
 		{
 			std::ostringstream error;
 
@@ -467,6 +459,12 @@ bool DirectiveVisitor::shouldSkip() const
 
 			throw schema_exception { { error.str() } };
 		}
+
+		// A selection with both directives is only included if neither of them excludes it.
+		if (argumentTrue == skip)
+		{
+			return true;
+		}
 	}
 
 	return false;
-- 
2.43.0


From 569da879df27b473b3cc186f3a27ddb7992c9f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 05/34] fix: a failing list element becomes null and keeps the
 others in place

The element was left out of the list, so later elements moved to the index of
another one. An element which failed before there was a future for it (e.g. an
exception from beginSelectionSet) replaced the whole list with an error.
---
 include/graphqlservice/GraphQLService.h | 26 +++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 285686e..378e0e1 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -642,6 +642,23 @@ struct ModifiedResult
 					parentPath ? std::make_optional(std::cref(*parentPath)) : std::nullopt,
 					path_segment { size_t { 0 } } });
 
+				// An element which can't be converted should only fail itself, not the whole list.
+				const auto convertElement = [&wrappedParams](auto&& entry) {
+					try
+					{
+						return ModifiedResult::convert<Other...>(std::move(entry),
+							ResolverParams(wrappedParams));
+					}
+					catch (const std::exception&)
+					{
+						std::promise<ResolverResult> promise;
+
+						promise.set_exception(std::current_exception());
+
+						return promise.get_future();
+					}
+				};
+
 				using vector_type = std::decay_t<decltype(wrappedFuture.get())>;
 
 				if constexpr (!std::is_same_v<std::decay_t<typename vector_type::reference>,
@@ -652,8 +669,7 @@ struct ModifiedResult
 					// Copy the values from the std::vector<> rather than moving them.
 					for (typename vector_type::value_type entry : wrappedResult)
 					{
-						children.push_back(ModifiedResult::convert<Other...>(std::move(entry),
-							ResolverParams(wrappedParams)));
+						children.push_back(convertElement(std::move(entry)));
 						++std::get<size_t>(wrappedParams.errorPath->segment);
 					}
 				}
@@ -661,8 +677,7 @@ struct ModifiedResult
 				{
 					for (auto& entry : wrappedResult)
 					{
-						children.push_back(ModifiedResult::convert<Other...>(std::move(entry),
-							ResolverParams(wrappedParams)));
+						children.push_back(convertElement(std::move(entry)));
 						++std::get<size_t>(wrappedParams.errorPath->segment);
 					}
 				}
@@ -693,6 +708,8 @@ struct ModifiedResult
 						{
 							document.errors.splice(document.errors.end(), errors);
 						}
+
+						document.data.emplace_back({});
 					}
 					catch (const std::exception& ex)
 					{
@@ -704,6 +721,7 @@ struct ModifiedResult
 						document.errors.emplace_back(schema_error { message.str(),
 							wrappedParams.getLocation(),
 							buildErrorPath(wrappedParams.errorPath) });
+						document.data.emplace_back({});
 					}
 
 					++std::get<size_t>(wrappedParams.errorPath->segment);
-- 
2.43.0


From ab2b1c43bd35d133760195f65e8d74ff49ba20df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 06/34] fix: fill in the location and path of errors delivered
 through futures

---
 include/graphqlservice/GraphQLService.h |  8 ++-
 src/GraphQLService.cpp                  | 82 +++++++++++++++++--------
 2 files changed, 62 insertions(+), 28 deletions(-)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 378e0e1..ec8a9b2 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -257,6 +257,10 @@ struct ResolverParams : SelectionSetParams
 
 	GRAPHQLSERVICE_EXPORT schema_location getLocation() const;
 
+	// Take the errors out of an exception and fill in the location and path of this field if the
+	// accessor didn't set them.
+	GRAPHQLSERVICE_EXPORT std::list<schema_error> getErrors(schema_exception& scx) const;
+
 	// These values are different for each resolver.
 	const peg::ast_node& field;
 	std::string fieldName;
@@ -702,7 +706,7 @@ struct ModifiedResult
 					}
 					catch (schema_exception& scx)
 					{
-						auto errors = scx.getStructuredErrors();
+						auto errors = wrappedParams.getErrors(scx);
 
 						if (!errors.empty())
 						{
@@ -754,7 +758,7 @@ private:
 			}
 			catch (schema_exception& scx)
 			{
-				auto errors = scx.getStructuredErrors();
+				auto errors = paramsFuture.getErrors(scx);
 
 				if (!errors.empty())
 				{
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 6bf9cc1..3aded2f 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -521,6 +521,30 @@ schema_location ResolverParams::getLocation() const
 	return { position.line, position.column };
 }
 
+static std::list<schema_error> fillErrors(std::list<schema_error>&& errors,
+	const schema_location& location, const std::optional<field_path>& path)
+{
+	for (auto& error : errors)
+	{
+		if (error.location.line == 0)
+		{
+			error.location = location;
+		}
+
+		if (error.path.empty())
+		{
+			error.path = buildErrorPath(path);
+		}
+	}
+
+	return std::move(errors);
+}
+
+std::list<schema_error> ResolverParams::getErrors(schema_exception& scx) const
+{
+	return fillErrors(scx.getStructuredErrors(), getLocation(), errorPath);
+}
+
 template <>
 response::IntType ModifiedArgument<response::IntType>::convert(const response::Value& value)
 {
@@ -757,13 +781,21 @@ struct FragmentDirectives
 class SelectionVisitor
 {
 public:
+	// The pending result of a field, and where it is in the document.
+	struct FieldValue
+	{
+		std::string_view name;
+		schema_location location;
+		std::future<ResolverResult> result;
+	};
+
 	explicit SelectionVisitor(const SelectionSetParams& selectionSetParams,
 		const FragmentMap& fragments, const response::Value& variables, const TypeNames& typeNames,
 		const ResolverMap& resolvers, size_t count);
 
 	void visit(const peg::ast_node& selection);
 
-	std::vector<std::pair<std::string_view, std::future<ResolverResult>>> getValues();
+	std::vector<FieldValue> getValues();
 
 private:
 	void visitField(const peg::ast_node& field);
@@ -782,7 +814,7 @@ private:
 
 	std::list<FragmentDirectives> _fragmentDirectives;
 	internal::string_view_set _names;
-	std::vector<std::pair<std::string_view, std::future<ResolverResult>>> _values;
+	std::vector<FieldValue> _values;
 };
 
 SelectionVisitor::SelectionVisitor(const SelectionSetParams& selectionSetParams,
@@ -808,7 +840,7 @@ SelectionVisitor::SelectionVisitor(const SelectionSetParams& selectionSetParams,
 	_values.reserve(count);
 }
 
-std::vector<std::pair<std::string_view, std::future<ResolverResult>>> SelectionVisitor::getValues()
+std::vector<SelectionVisitor::FieldValue> SelectionVisitor::getValues()
 {
 	auto values = std::move(_values);
 
@@ -884,7 +916,7 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 				{ position.line, position.column },
 				buildErrorPath(_path ? std::make_optional(_path->get()) : std::nullopt) } } }));
 
-		_values.push_back({ alias, promise.get_future() });
+		_values.push_back({ alias, { position.line, position.column }, promise.get_future() });
 		return;
 	}
 
@@ -929,30 +961,21 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 			_fragments,
 			_variables));
 
-		_values.push_back({ alias, std::move(result) });
+		auto position = field.begin();
+
+		_values.push_back({ alias, { position.line, position.column }, std::move(result) });
 	}
 	catch (schema_exception& scx)
 	{
 		std::promise<ResolverResult> promise;
 		auto position = field.begin();
-		auto messages = scx.getStructuredErrors();
-
-		for (auto& message : messages)
-		{
-			if (message.location.line == 0)
-			{
-				message.location = { position.line, position.column };
-			}
-
-			if (message.path.empty())
-			{
-				message.path = buildErrorPath(selectionSetParams.errorPath);
-			}
-		}
+		auto messages = fillErrors(scx.getStructuredErrors(),
+			{ position.line, position.column },
+			selectionSetParams.errorPath);
 
 		promise.set_exception(std::make_exception_ptr(schema_exception { std::move(messages) }));
 
-		_values.push_back({ alias, promise.get_future() });
+		_values.push_back({ alias, { position.line, position.column }, promise.get_future() });
 	}
 	catch (const std::exception& ex)
 	{
@@ -967,7 +990,7 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 				{ position.line, position.column },
 				buildErrorPath(selectionSetParams.errorPath) } } }));
 
-		_values.push_back({ alias, promise.get_future() });
+		_values.push_back({ alias, { position.line, position.column }, promise.get_future() });
 	}
 }
 
@@ -1140,18 +1163,20 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 
 	return std::async(
 		selectionSetParams.launch,
-		[](std::vector<std::pair<std::string_view, std::future<ResolverResult>>>&& children) {
+		[path = selectionSetParams.errorPath](
+			std::vector<SelectionVisitor::FieldValue>&& children) {
+			const auto parentPath = path ? std::make_optional(std::cref(*path)) : std::nullopt;
 			ResolverResult document { response::Value { response::Type::Map } };
 
 			document.data.reserve(children.size());
 
 			for (auto& child : children)
 			{
-				auto name = child.first;
+				auto name = child.name;
 
 				try
 				{
-					auto value = child.second.get();
+					auto value = child.result.get();
 
 					if (!document.data.emplace_back(std::string { name }, std::move(value.data)))
 					{
@@ -1169,7 +1194,9 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 				}
 				catch (schema_exception& scx)
 				{
-					auto errors = scx.getStructuredErrors();
+					auto errors = fillErrors(scx.getStructuredErrors(),
+						child.location,
+						std::make_optional(field_path { parentPath, path_segment { name } }));
 
 					if (!errors.empty())
 					{
@@ -1186,7 +1213,10 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 
 					message << "Field error name: " << name << " unknown error: " << ex.what();
 
-					document.errors.push_back({ message.str() });
+					document.errors.push_back({ message.str(),
+						child.location,
+						buildErrorPath(std::make_optional(
+							field_path { parentPath, path_segment { name } })) });
 					document.data.emplace_back(std::string { name }, {});
 				}
 			}
-- 
2.43.0


From 95c060418721afe23e7b90827c649431200fa80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:07 +0000
Subject: [PATCH 07/34] fix: complete each top level field of a mutation before
 starting the next one

---
 src/GraphQLService.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 3aded2f..ebdea14 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -939,6 +939,13 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 		selection = &child;
 	});
 
+	if (_resolverContext == ResolverContext::Mutation && !_path && !_values.empty())
+	{
+		// The top level fields of a mutation are executed serially: complete the previous field,
+		// including its own selection set, before starting this one.
+		_values.back().result.wait();
+	}
+
 	const SelectionSetParams selectionSetParams {
 		_resolverContext,
 		_state,
-- 
2.43.0


From e88f0fcedb48ac2eb614851a4ba3f160e3c79d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:25 +0000
Subject: [PATCH 08/34] fix: keep the source name of positions valid for as
 long as the AST

---
 src/SyntaxTree.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index 7c52e06..6276e40 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -739,6 +739,9 @@ template <>
 const std::string ast_control<schema_document_content>::error_message =
 	"Expected schema type http://spec.graphql.org/June2018/#Document";
 
+// The AST refers to the source name for as long as it exists, so the temporary input must not own it.
+using static_source_input = memory_input<tracking_mode::eager, eol::lf_crlf, const char*>;
+
 ast parseSchemaString(std::string_view input)
 {
 	ast result { std::make_shared<ast_input>(
@@ -751,7 +754,7 @@ ast parseSchemaString(std::string_view input)
 		// Try a smaller grammar with only schema type definitions first.
 		result.root =
 			parse_tree::parse<schema_document, ast_node, schema_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				static_source_input(data.data(), data.size(), "GraphQL"));
 	}
 	catch (const peg::parse_error&)
 	{
@@ -759,7 +762,7 @@ ast parseSchemaString(std::string_view input)
 		// executable definitions if this is a mixed document.
 		result.root =
 			parse_tree::parse<mixed_document, ast_node, schema_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				static_source_input(data.data(), data.size(), "GraphQL"));
 	}
 
 	return result;
@@ -810,7 +813,7 @@ ast parseString(std::string_view input)
 		// Try a smaller grammar with only executable definitions first.
 		result.root = parse_tree::
 			parse<executable_document, ast_node, executable_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				static_source_input(data.data(), data.size(), "GraphQL"));
 	}
 	catch (const peg::parse_error&)
 	{
@@ -818,7 +821,7 @@ ast parseString(std::string_view input)
 		// definitions if this is a mixed document.
 		result.root =
 			parse_tree::parse<mixed_document, ast_node, executable_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				static_source_input(data.data(), data.size(), "GraphQL"));
 	}
 
 	return result;
@@ -872,7 +875,7 @@ peg::ast operator"" _graphql(const char* text, size_t size)
 			peg::ast_node,
 			peg::executable_selector,
 			peg::nothing,
-			peg::ast_control>(peg::memory_input<>(text, size, "GraphQL"));
+			peg::ast_control>(peg::static_source_input(text, size, "GraphQL"));
 	}
 	catch (const peg::parse_error&)
 	{
@@ -882,7 +885,7 @@ peg::ast operator"" _graphql(const char* text, size_t size)
 			peg::ast_node,
 			peg::executable_selector,
 			peg::nothing,
-			peg::ast_control>(peg::memory_input<>(text, size, "GraphQL"));
+			peg::ast_control>(peg::static_source_input(text, size, "GraphQL"));
 	}
 
 	return result;
-- 
2.43.0


From aa0da387adc384dbd10161c4d5c4624040e958b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 09/34] fix: serialize validation, its visitor keeps state for
 one query at a time

---
 include/graphqlservice/GraphQLService.h | 1 +
 src/GraphQLService.cpp                  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index ec8a9b2..f82a87a 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -982,6 +982,7 @@ private:
 		const std::string& operationName, response::Value&& variables) const;
 
 	const TypeMap _operations;
+	mutable std::mutex _validationMutex;
 	std::unique_ptr<ValidateExecutableVisitor> _validation;
 	internal::sorted_map<SubscriptionKey, std::shared_ptr<SubscriptionData>> _subscriptions;
 	internal::sorted_map<SubscriptionName, internal::sorted_set<SubscriptionKey>> _listeners;
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index ebdea14..336c7bf 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1663,6 +1663,9 @@ std::list<schema_error> Request::validate(peg::ast& query) const
 
 	if (!query.validated)
 	{
+		// The visitor keeps state for the query it is visiting.
+		const std::lock_guard<std::mutex> lock { _validationMutex };
+
 		_validation->visit(*query.root);
 		errors = _validation->getStructuredErrors();
 		query.validated = errors.empty();
-- 
2.43.0


From e7714f9ba7017e076facee55a94ec6a257752bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:25 +0000
Subject: [PATCH 10/34] fix: forget the variables of an operation whose type is
 not supported

---
 src/Validation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index 23e4731..21f044a 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -769,6 +769,9 @@ void ValidateExecutableVisitor::visitOperationDefinition(const peg::ast_node& op
 		error << "Unsupported operation type: " << operationType;
 
 		_errors.push_back({ error.str(), { position.line, position.column } });
+		_operationVariables.reset();
+		_variableDefinitions.clear();
+		_referencedVariables.clear();
 		return;
 	}
 
-- 
2.43.0


From f509026bb26ba21b5cf4fc4012af6b807915e0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:16 +0000
Subject: [PATCH 11/34] fix: register only the selected subscription, also if
 its field is inside of a fragment

---
 src/GraphQLService.cpp | 45 ++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 336c7bf..e6a0c3f 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1431,12 +1431,12 @@ public:
 	SubscriptionDefinitionVisitor(SubscriptionParams&& params, SubscriptionCallback&& callback,
 		FragmentMap&& fragments, const std::shared_ptr<Object>& subscriptionObject);
 
-	const peg::ast_node& getRoot() const;
 	std::shared_ptr<SubscriptionData> getRegistration();
 
 	void visit(const peg::ast_node& operationDefinition);
 
 private:
+	void visitSelection(const peg::ast_node& selection);
 	void visitField(const peg::ast_node& field);
 	void visitFragmentSpread(const peg::ast_node& fragmentSpread);
 	void visitInlineFragment(const peg::ast_node& inlineFragment);
@@ -1461,11 +1461,6 @@ SubscriptionDefinitionVisitor::SubscriptionDefinitionVisitor(SubscriptionParams&
 {
 }
 
-const peg::ast_node& SubscriptionDefinitionVisitor::getRoot() const
-{
-	return *_params.query.root;
-}
-
 std::shared_ptr<SubscriptionData> SubscriptionDefinitionVisitor::getRegistration()
 {
 	auto result = std::move(_result);
@@ -1481,18 +1476,7 @@ void SubscriptionDefinitionVisitor::visit(const peg::ast_node& operationDefiniti
 
 	for (const auto& child : selection.children)
 	{
-		if (child->is_type<peg::field>())
-		{
-			visitField(*child);
-		}
-		else if (child->is_type<peg::fragment_spread>())
-		{
-			visitFragmentSpread(*child);
-		}
-		else if (child->is_type<peg::inline_fragment>())
-		{
-			visitInlineFragment(*child);
-		}
+		visitSelection(*child);
 	}
 
 	response::Value directives(response::Type::Map);
@@ -1519,6 +1503,22 @@ void SubscriptionDefinitionVisitor::visit(const peg::ast_node& operationDefiniti
 			selection);
 }
 
+void SubscriptionDefinitionVisitor::visitSelection(const peg::ast_node& selection)
+{
+	if (selection.is_type<peg::field>())
+	{
+		visitField(selection);
+	}
+	else if (selection.is_type<peg::fragment_spread>())
+	{
+		visitFragmentSpread(selection);
+	}
+	else if (selection.is_type<peg::inline_fragment>())
+	{
+		visitInlineFragment(selection);
+	}
+}
+
 void SubscriptionDefinitionVisitor::visitField(const peg::ast_node& field)
 {
 	std::string_view name;
@@ -1607,7 +1607,7 @@ void SubscriptionDefinitionVisitor::visitFragmentSpread(const peg::ast_node& fra
 
 	for (const auto& selection : itr->second.getSelection().children)
 	{
-		visit(*selection);
+		visitSelection(*selection);
 	}
 }
 
@@ -1638,7 +1638,7 @@ void SubscriptionDefinitionVisitor::visitInlineFragment(const peg::ast_node& inl
 		peg::on_first_child<peg::selection_set>(inlineFragment, [this](const peg::ast_node& child) {
 			for (const auto& selection : child.children)
 			{
-				visit(*selection);
+				visitSelection(*selection);
 			}
 		});
 	}
@@ -2022,10 +2022,7 @@ SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCall
 		std::move(fragments),
 		itr->second);
 
-	peg::for_each_child<peg::operation_definition>(subscriptionVisitor.getRoot(),
-		[&subscriptionVisitor](const peg::ast_node& child) {
-			subscriptionVisitor.visit(child);
-		});
+	subscriptionVisitor.visit(*operationDefinition.second);
 
 	auto registration = subscriptionVisitor.getRegistration();
 	auto key = _nextKey++;
-- 
2.43.0


From 02e8107d9ff24ddaa99ddfc02560323249820389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:16 +0000
Subject: [PATCH 12/34] fix: apply the default values of variables in
 subscriptions

---
 src/GraphQLService.cpp | 78 +++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 35 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index e6a0c3f..68fed3b 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1289,6 +1289,46 @@ void FragmentDefinitionVisitor::visit(const peg::ast_node& fragmentDefinition)
 		Fragment(fragmentDefinition, _variables));
 }
 
+// Filter the variables down to the ones defined in this operation, and fill in the default values.
+response::Value getOperationVariables(
+	const peg::ast_node& operationDefinition, const response::Value& variables)
+{
+	response::Value operationVariables(response::Type::Map);
+
+	peg::for_each_child<peg::variable>(operationDefinition,
+		[&variables, &operationVariables](const peg::ast_node& variable) {
+			std::string variableName;
+
+			peg::on_first_child<peg::variable_name>(variable,
+				[&variableName](const peg::ast_node& name) {
+					// Skip the $ prefix
+					variableName = name.string_view().substr(1);
+				});
+
+			auto itrVar = variables.find(variableName);
+			response::Value valueVar;
+
+			if (itrVar != variables.get<response::MapType>().cend())
+			{
+				valueVar = response::Value(itrVar->second);
+			}
+			else
+			{
+				peg::on_first_child<peg::default_value>(variable,
+					[&variables, &valueVar](const peg::ast_node& defaultValue) {
+						ValueVisitor visitor(variables);
+
+						visitor.visit(*defaultValue.children.front());
+						valueVar = visitor.getValue();
+					});
+			}
+
+			operationVariables.emplace_back(std::move(variableName), std::move(valueVar));
+		});
+
+	return operationVariables;
+}
+
 // OperationDefinitionVisitor visits the AST and executes the one with the specified
 // operation name.
 class OperationDefinitionVisitor
@@ -1347,41 +1387,7 @@ void OperationDefinitionVisitor::visit(
 {
 	auto itr = _operations.find(operationType);
 
-	// Filter the variable definitions down to the ones referenced in this operation
-	response::Value operationVariables(response::Type::Map);
-
-	peg::for_each_child<peg::variable>(operationDefinition,
-		[this, &operationVariables](const peg::ast_node& variable) {
-			std::string variableName;
-
-			peg::on_first_child<peg::variable_name>(variable,
-				[&variableName](const peg::ast_node& name) {
-					// Skip the $ prefix
-					variableName = name.string_view().substr(1);
-				});
-
-			auto itrVar = _params->variables.find(variableName);
-			response::Value valueVar;
-
-			if (itrVar != _params->variables.get<response::MapType>().cend())
-			{
-				valueVar = response::Value(itrVar->second);
-			}
-			else
-			{
-				peg::on_first_child<peg::default_value>(variable,
-					[this, &valueVar](const peg::ast_node& defaultValue) {
-						ValueVisitor visitor(_params->variables);
-
-						visitor.visit(*defaultValue.children.front());
-						valueVar = visitor.getValue();
-					});
-			}
-
-			operationVariables.emplace_back(std::move(variableName), std::move(valueVar));
-		});
-
-	_params->variables = std::move(operationVariables);
+	_params->variables = getOperationVariables(operationDefinition, _params->variables);
 
 	response::Value operationDirectives(response::Type::Map);
 
@@ -1474,6 +1480,8 @@ void SubscriptionDefinitionVisitor::visit(const peg::ast_node& operationDefiniti
 {
 	const auto& selection = *operationDefinition.children.back();
 
+	_params.variables = getOperationVariables(operationDefinition, _params.variables);
+
 	for (const auto& child : selection.children)
 	{
 		visitSelection(*child);
-- 
2.43.0


From e6611ae026c2adca132d8568384bcf9a0dcd5a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:10 +0000
Subject: [PATCH 13/34] fix: guard the subscription registry, it is used by
 concurrent calls

---
 include/graphqlservice/GraphQLService.h |  3 ++
 src/GraphQLService.cpp                  | 45 +++++++++++++++++++------
 2 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index f82a87a..5016cdf 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -981,9 +981,12 @@ private:
 		const std::shared_ptr<RequestState>& state, const peg::ast_node& root,
 		const std::string& operationName, response::Value&& variables) const;
 
+	std::shared_ptr<const SubscriptionData> getRegistration(SubscriptionKey key);
+
 	const TypeMap _operations;
 	mutable std::mutex _validationMutex;
 	std::unique_ptr<ValidateExecutableVisitor> _validation;
+	mutable std::mutex _subscriptionMutex;
 	internal::sorted_map<SubscriptionKey, std::shared_ptr<SubscriptionData>> _subscriptions;
 	internal::sorted_map<SubscriptionName, internal::sorted_set<SubscriptionKey>> _listeners;
 	SubscriptionKey _nextKey = 0;
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 68fed3b..1cdf146 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2033,6 +2033,7 @@ SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCall
 	subscriptionVisitor.visit(*operationDefinition.second);
 
 	auto registration = subscriptionVisitor.getRegistration();
+	const std::lock_guard<std::mutex> lock(_subscriptionMutex);
 	auto key = _nextKey++;
 
 	_listeners[registration->field].emplace(key);
@@ -2054,7 +2055,7 @@ std::future<SubscriptionKey> Request::subscribe(
 			if (itrOperation != spThis->_operations.end())
 			{
 				const auto& operation = itrOperation->second;
-				const auto& registration = spThis->_subscriptions.at(key);
+				const auto registration = spThis->getRegistration(key);
 				response::Value emptyFragmentDirectives(response::Type::Map);
 				const SelectionSetParams selectionSetParams {
 					ResolverContext::NotifySubscribe,
@@ -2090,8 +2091,18 @@ std::future<SubscriptionKey> Request::subscribe(
 		std::move(callback));
 }
 
+std::shared_ptr<const SubscriptionData> Request::getRegistration(SubscriptionKey key)
+{
+	const std::lock_guard<std::mutex> lock(_subscriptionMutex);
+
+	return _subscriptions.at(key);
+}
+
 void Request::unsubscribe(SubscriptionKey key)
 {
+	// The callback may re-enter the service when it is destroyed, so don't hold the lock there.
+	std::shared_ptr<const SubscriptionData> registration;
+	const std::lock_guard<std::mutex> lock(_subscriptionMutex);
 	auto itrSubscription = _subscriptions.find(key);
 
 	if (itrSubscription == _subscriptions.end())
@@ -2099,7 +2110,9 @@ void Request::unsubscribe(SubscriptionKey key)
 		return;
 	}
 
-	const auto listenerKey = std::string_view { itrSubscription->second->field };
+	registration = itrSubscription->second;
+
+	const auto listenerKey = std::string_view { registration->field };
 	auto& listener = _listeners.at(listenerKey);
 
 	listener.erase(key);
@@ -2128,7 +2141,7 @@ std::future<void> Request::unsubscribe(std::launch launch, SubscriptionKey key)
 		if (itrOperation != spThis->_operations.end())
 		{
 			const auto& operation = itrOperation->second;
-			const auto& registration = spThis->_subscriptions.at(key);
+			const auto registration = spThis->getRegistration(key);
 			response::Value emptyFragmentDirectives(response::Type::Map);
 			const SelectionSetParams selectionSetParams {
 				ResolverContext::NotifyUnsubscribe,
@@ -2258,20 +2271,32 @@ void Request::deliver(std::launch launch, const SubscriptionName& name,
 		throw std::invalid_argument("Missing subscriptionObject");
 	}
 
-	auto itrListeners = _listeners.find(name);
+	std::vector<std::shared_ptr<const SubscriptionData>> registrations;
 
-	if (itrListeners == _listeners.end())
 	{
-		return;
+		const std::lock_guard<std::mutex> lock(_subscriptionMutex);
+		auto itrListeners = _listeners.find(name);
+
+		if (itrListeners == _listeners.end())
+		{
+			return;
+		}
+
+		registrations.reserve(itrListeners->second.size());
+		for (const auto& key : itrListeners->second)
+		{
+			auto itrSubscription = _subscriptions.find(key);
+
+			registrations.push_back(itrSubscription->second);
+		}
 	}
 
+	// The filters, resolvers, and callbacks may re-enter the service, so don't hold the lock here.
 	std::vector<std::future<void>> callbacks;
 
-	callbacks.reserve(itrListeners->second.size());
-	for (const auto& key : itrListeners->second)
+	callbacks.reserve(registrations.size());
+	for (const auto& registration : registrations)
 	{
-		auto itrSubscription = _subscriptions.find(key);
-		auto registration = itrSubscription->second;
 		const auto& subscriptionArguments = registration->arguments;
 		bool matchedArguments = true;
 
-- 
2.43.0


From d9d68b29e3dd83618a8665b6c648b512cfd77772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:11 +0000
Subject: [PATCH 14/34] fix: allow asynchronous subscriptions without a default
 subscription object

---
 src/GraphQLService.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 1cdf146..3e38971 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1595,7 +1595,9 @@ void SubscriptionDefinitionVisitor::visitFragmentSpread(const peg::ast_node& fra
 		};
 	}
 
-	bool skip = !_subscriptionObject->matchesType(itr->second.getType());
+	// Without a default object, rely on the validation of the fragment's type condition.
+	bool skip =
+		_subscriptionObject && !_subscriptionObject->matchesType(itr->second.getType());
 	DirectiveVisitor directiveVisitor(_params.variables);
 
 	if (!skip)
@@ -1640,7 +1642,7 @@ void SubscriptionDefinitionVisitor::visitInlineFragment(const peg::ast_node& inl
 			typeCondition = &child;
 		});
 
-	if (typeCondition == nullptr
+	if (typeCondition == nullptr || !_subscriptionObject
 		|| _subscriptionObject->matchesType(typeCondition->children.front()->string()))
 	{
 		peg::on_first_child<peg::selection_set>(inlineFragment, [this](const peg::ast_node& child) {
@@ -2052,7 +2054,7 @@ std::future<SubscriptionKey> Request::subscribe(
 			const auto key = spThis->subscribe(std::move(paramsFuture), std::move(callbackFuture));
 			const auto itrOperation = spThis->_operations.find(strSubscription);
 
-			if (itrOperation != spThis->_operations.end())
+			if (itrOperation != spThis->_operations.end() && itrOperation->second)
 			{
 				const auto& operation = itrOperation->second;
 				const auto registration = spThis->getRegistration(key);
@@ -2138,7 +2140,7 @@ std::future<void> Request::unsubscribe(std::launch launch, SubscriptionKey key)
 	return std::async(launch, [spThis = shared_from_this(), launch, key]() {
 		const auto itrOperation = spThis->_operations.find(strSubscription);
 
-		if (itrOperation != spThis->_operations.end())
+		if (itrOperation != spThis->_operations.end() && itrOperation->second)
 		{
 			const auto& operation = itrOperation->second;
 			const auto registration = spThis->getRegistration(key);
-- 
2.43.0


From e7ae04fea31dd189d0328b0a883e75d15149c8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:11 +0000
Subject: [PATCH 15/34] fix: deliver to every subscription if no filter is
 given for arguments or directives

---
 src/GraphQLService.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 3e38971..bbd9d49 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2205,13 +2205,27 @@ void Request::deliver(const SubscriptionName& name,
 void Request::deliver(std::launch launch, const SubscriptionName& name,
 	const std::shared_ptr<Object>& subscriptionObject) const
 {
-	deliver(launch, name, SubscriptionArguments {}, SubscriptionArguments {}, subscriptionObject);
+	deliver(
+		launch,
+		name,
+		[](response::MapType::const_reference) noexcept {
+			return true;
+		},
+		subscriptionObject);
 }
 
 void Request::deliver(std::launch launch, const SubscriptionName& name,
 	const SubscriptionArguments& arguments, const std::shared_ptr<Object>& subscriptionObject) const
 {
-	deliver(launch, name, arguments, SubscriptionArguments {}, subscriptionObject);
+	deliver(
+		launch,
+		name,
+		[&arguments](response::MapType::const_reference required) noexcept -> bool {
+			auto itrArgument = arguments.find(required.first);
+
+			return (itrArgument != arguments.end() && itrArgument->second == required.second);
+		},
+		subscriptionObject);
 }
 
 void Request::deliver(std::launch launch, const SubscriptionName& name,
-- 
2.43.0


From e87beb3293f9395a5e472e72045ac029c1fca7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 16/34] fix: keep the subscription alive until a callback has
 resolved its payload

---
 src/GraphQLService.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index bbd9d49..68f5298 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2366,9 +2366,11 @@ void Request::deliver(std::launch launch, const SubscriptionName& name,
 
 		try
 		{
+			// Keep the query and the object alive until the callback has resolved the payload
 			result = std::async(
 				launch,
-				[](std::future<ResolverResult>&& operationFuture) {
+				[registration, subscription = optionalOrDefaultSubscription](
+					std::future<ResolverResult>&& operationFuture) {
 					auto result = operationFuture.get();
 					response::Value document { response::Type::Map };
 
-- 
2.43.0


From 1be9efa1c1188eda7cb2d4bc0004b505c1324a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:58 +0000
Subject: [PATCH 17/34] fix: an asynchronous subscribe reports the errors of
 its notification and does not stay registered

---
 src/GraphQLService.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 68f5298..a0f08ea 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2072,18 +2072,29 @@ std::future<SubscriptionKey> Request::subscribe(
 
 				try
 				{
-					operation
-						->resolve(selectionSetParams,
-							registration->selection,
-							registration->data->fragments,
-							registration->data->variables)
-						.get();
+					auto result = operation
+									  ->resolve(selectionSetParams,
+										  registration->selection,
+										  registration->data->fragments,
+										  registration->data->variables)
+									  .get();
+
+					if (!result.errors.empty())
+					{
+						// The names in the paths belong to the query, which does not stay registered.
+						for (auto& error : result.errors)
+						{
+							error.path.clear();
+						}
+
+						throw schema_exception { std::move(result.errors) };
+					}
 				}
-				catch (const std::exception& ex)
+				catch (const std::exception&)
 				{
 					// Rethrow the exception, but don't leave it subscribed if the resolver failed.
 					spThis->unsubscribe(key);
-					throw ex;
+					throw;
 				}
 			}
 
-- 
2.43.0


From c5e4a3dc3cbf934f3ed20d036d4375fe7678d868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:58 +0000
Subject: [PATCH 18/34] fix: invoke every callback of a delivery, also if one
 of them throws

---
 src/GraphQLService.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index a0f08ea..26f3333 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2420,9 +2420,27 @@ void Request::deliver(std::launch launch, const SubscriptionName& name,
 			std::move(result)));
 	}
 
+	std::exception_ptr callbackException;
+
 	for (auto& callback : callbacks)
 	{
-		callback.get();
+		try
+		{
+			callback.get();
+		}
+		catch (...)
+		{
+			// Invoke the rest of the callbacks before reporting the first exception
+			if (!callbackException)
+			{
+				callbackException = std::current_exception();
+			}
+		}
+	}
+
+	if (callbackException)
+	{
+		std::rethrow_exception(callbackException);
 	}
 }
 
-- 
2.43.0


From 7a1a8877310f42aa303fb928d70baeeb355454ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:23 +0000
Subject: [PATCH 19/34] fix: reset the validation state when visiting a query
 threw an exception

---
 src/Validation.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index 21f044a..e32c137 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -472,6 +472,20 @@ ValidateExecutableVisitor::ValidateExecutableVisitor(const std::shared_ptr<schem
 
 void ValidateExecutableVisitor::visit(const peg::ast_node& root)
 {
+	// If the last visit threw an exception, it did not get to reset this state.
+	_errors.clear();
+	_fragmentDefinitions.clear();
+	_operationDefinitions.clear();
+	_referencedFragments.clear();
+	_fragmentCycles.clear();
+	_operationVariables.reset();
+	_variableDefinitions.clear();
+	_referencedVariables.clear();
+	_fragmentStack.clear();
+	_fieldCount = 0;
+	_scopedType.reset();
+	_selectionFields.clear();
+
 	// Visit all of the fragment definitions and check for duplicates.
 	peg::for_each_child<peg::fragment_definition>(root,
 		[this](const peg::ast_node& fragmentDefinition) {
-- 
2.43.0


From 636915dd05c97586541ca87378d63a4b603eddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 20/34] fix: use default values only for missing arguments

A nullable argument or input field with a default value got null if the
request left it out, and an argument that does not match its type was
silently replaced by the default value.
---
 samples/separate/QueryObject.cpp              |  5 +----
 samples/separate/TodaySchema.cpp              |  5 +----
 .../separate_nointrospection/QueryObject.cpp  |  5 +----
 .../separate_nointrospection/TodaySchema.cpp  |  5 +----
 samples/unified/TodaySchema.cpp               | 10 ++--------
 .../unified_nointrospection/TodaySchema.cpp   | 10 ++--------
 samples/validation/ValidationSchema.cpp       |  5 +----
 src/IntrospectionSchema.cpp                   | 10 ++--------
 src/SchemaGenerator.cpp                       | 19 ++++++++-----------
 9 files changed, 19 insertions(+), 55 deletions(-)

diff --git a/samples/separate/QueryObject.cpp b/samples/separate/QueryObject.cpp
index d756490..640c3e5 100644
--- a/samples/separate/QueryObject.cpp
+++ b/samples/separate/QueryObject.cpp
@@ -141,10 +141,7 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 		return values;
 	}();
 
-	auto pairIds = service::ModifiedArgument<response::IdType>::find<service::TypeModifier::List>("ids", params.arguments);
-	auto argIds = (pairIds.second
-		? std::move(pairIds.first)
-		: service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", defaultArguments));
+	auto argIds = service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", (params.arguments.find("ids") == params.arguments.end() ? defaultArguments : params.arguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getAppointmentsById(service::FieldParams(std::move(params), std::move(directives)), std::move(argIds));
diff --git a/samples/separate/TodaySchema.cpp b/samples/separate/TodaySchema.cpp
index 07b69b6..7430ed2 100644
--- a/samples/separate/TodaySchema.cpp
+++ b/samples/separate/TodaySchema.cpp
@@ -76,10 +76,7 @@ today::CompleteTaskInput ModifiedArgument<today::CompleteTaskInput>::convert(con
 
 	auto valueId = service::ModifiedArgument<response::IdType>::require("id", value);
 	auto valueTestTaskState = service::ModifiedArgument<today::TaskState>::require<service::TypeModifier::Nullable>("testTaskState", value);
-	auto pairIsComplete = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("isComplete", value);
-	auto valueIsComplete = (pairIsComplete.second
-		? std::move(pairIsComplete.first)
-		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", defaultValue));
+	auto valueIsComplete = service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", (value.find("isComplete") == value.end() ? defaultValue : value));
 	auto valueClientMutationId = service::ModifiedArgument<response::StringType>::require<service::TypeModifier::Nullable>("clientMutationId", value);
 
 	return {
diff --git a/samples/separate_nointrospection/QueryObject.cpp b/samples/separate_nointrospection/QueryObject.cpp
index d081b8b..eb05b21 100644
--- a/samples/separate_nointrospection/QueryObject.cpp
+++ b/samples/separate_nointrospection/QueryObject.cpp
@@ -138,10 +138,7 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 		return values;
 	}();
 
-	auto pairIds = service::ModifiedArgument<response::IdType>::find<service::TypeModifier::List>("ids", params.arguments);
-	auto argIds = (pairIds.second
-		? std::move(pairIds.first)
-		: service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", defaultArguments));
+	auto argIds = service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", (params.arguments.find("ids") == params.arguments.end() ? defaultArguments : params.arguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getAppointmentsById(service::FieldParams(std::move(params), std::move(directives)), std::move(argIds));
diff --git a/samples/separate_nointrospection/TodaySchema.cpp b/samples/separate_nointrospection/TodaySchema.cpp
index a80582b..4f8b87f 100644
--- a/samples/separate_nointrospection/TodaySchema.cpp
+++ b/samples/separate_nointrospection/TodaySchema.cpp
@@ -76,10 +76,7 @@ today::CompleteTaskInput ModifiedArgument<today::CompleteTaskInput>::convert(con
 
 	auto valueId = service::ModifiedArgument<response::IdType>::require("id", value);
 	auto valueTestTaskState = service::ModifiedArgument<today::TaskState>::require<service::TypeModifier::Nullable>("testTaskState", value);
-	auto pairIsComplete = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("isComplete", value);
-	auto valueIsComplete = (pairIsComplete.second
-		? std::move(pairIsComplete.first)
-		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", defaultValue));
+	auto valueIsComplete = service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", (value.find("isComplete") == value.end() ? defaultValue : value));
 	auto valueClientMutationId = service::ModifiedArgument<response::StringType>::require<service::TypeModifier::Nullable>("clientMutationId", value);
 
 	return {
diff --git a/samples/unified/TodaySchema.cpp b/samples/unified/TodaySchema.cpp
index c840830..c9b84f2 100644
--- a/samples/unified/TodaySchema.cpp
+++ b/samples/unified/TodaySchema.cpp
@@ -76,10 +76,7 @@ today::CompleteTaskInput ModifiedArgument<today::CompleteTaskInput>::convert(con
 
 	auto valueId = service::ModifiedArgument<response::IdType>::require("id", value);
 	auto valueTestTaskState = service::ModifiedArgument<today::TaskState>::require<service::TypeModifier::Nullable>("testTaskState", value);
-	auto pairIsComplete = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("isComplete", value);
-	auto valueIsComplete = (pairIsComplete.second
-		? std::move(pairIsComplete.first)
-		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", defaultValue));
+	auto valueIsComplete = service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", (value.find("isComplete") == value.end() ? defaultValue : value));
 	auto valueClientMutationId = service::ModifiedArgument<response::StringType>::require<service::TypeModifier::Nullable>("clientMutationId", value);
 
 	return {
@@ -264,10 +261,7 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 		return values;
 	}();
 
-	auto pairIds = service::ModifiedArgument<response::IdType>::find<service::TypeModifier::List>("ids", params.arguments);
-	auto argIds = (pairIds.second
-		? std::move(pairIds.first)
-		: service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", defaultArguments));
+	auto argIds = service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", (params.arguments.find("ids") == params.arguments.end() ? defaultArguments : params.arguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getAppointmentsById(service::FieldParams(std::move(params), std::move(directives)), std::move(argIds));
diff --git a/samples/unified_nointrospection/TodaySchema.cpp b/samples/unified_nointrospection/TodaySchema.cpp
index 67d3949..28bb9a1 100644
--- a/samples/unified_nointrospection/TodaySchema.cpp
+++ b/samples/unified_nointrospection/TodaySchema.cpp
@@ -76,10 +76,7 @@ today::CompleteTaskInput ModifiedArgument<today::CompleteTaskInput>::convert(con
 
 	auto valueId = service::ModifiedArgument<response::IdType>::require("id", value);
 	auto valueTestTaskState = service::ModifiedArgument<today::TaskState>::require<service::TypeModifier::Nullable>("testTaskState", value);
-	auto pairIsComplete = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("isComplete", value);
-	auto valueIsComplete = (pairIsComplete.second
-		? std::move(pairIsComplete.first)
-		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", defaultValue));
+	auto valueIsComplete = service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", (value.find("isComplete") == value.end() ? defaultValue : value));
 	auto valueClientMutationId = service::ModifiedArgument<response::StringType>::require<service::TypeModifier::Nullable>("clientMutationId", value);
 
 	return {
@@ -261,10 +258,7 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 		return values;
 	}();
 
-	auto pairIds = service::ModifiedArgument<response::IdType>::find<service::TypeModifier::List>("ids", params.arguments);
-	auto argIds = (pairIds.second
-		? std::move(pairIds.first)
-		: service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", defaultArguments));
+	auto argIds = service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", (params.arguments.find("ids") == params.arguments.end() ? defaultArguments : params.arguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getAppointmentsById(service::FieldParams(std::move(params), std::move(directives)), std::move(argIds));
diff --git a/samples/validation/ValidationSchema.cpp b/samples/validation/ValidationSchema.cpp
index c5e4a81..7afc6fa 100644
--- a/samples/validation/ValidationSchema.cpp
+++ b/samples/validation/ValidationSchema.cpp
@@ -850,10 +850,7 @@ std::future<service::ResolverResult> Arguments::resolveOptionalNonNullBooleanArg
 		return values;
 	}();
 
-	auto pairOptionalBooleanArg = service::ModifiedArgument<response::BooleanType>::find("optionalBooleanArg", params.arguments);
-	auto argOptionalBooleanArg = (pairOptionalBooleanArg.second
-		? std::move(pairOptionalBooleanArg.first)
-		: service::ModifiedArgument<response::BooleanType>::require("optionalBooleanArg", defaultArguments));
+	auto argOptionalBooleanArg = service::ModifiedArgument<response::BooleanType>::require("optionalBooleanArg", (params.arguments.find("optionalBooleanArg") == params.arguments.end() ? defaultArguments : params.arguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getOptionalNonNullBooleanArgField(service::FieldParams(std::move(params), std::move(directives)), std::move(argOptionalBooleanArg));
diff --git a/src/IntrospectionSchema.cpp b/src/IntrospectionSchema.cpp
index ddc9e1a..7cd0db9 100644
--- a/src/IntrospectionSchema.cpp
+++ b/src/IntrospectionSchema.cpp
@@ -250,10 +250,7 @@ std::future<service::ResolverResult> Type::resolveFields(service::ResolverParams
 		return values;
 	}();
 
-	auto pairIncludeDeprecated = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("includeDeprecated", params.arguments);
-	auto argIncludeDeprecated = (pairIncludeDeprecated.second
-		? std::move(pairIncludeDeprecated.first)
-		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", defaultArguments));
+	auto argIncludeDeprecated = service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", (params.arguments.find("includeDeprecated") == params.arguments.end() ? defaultArguments : params.arguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getFields(service::FieldParams(std::move(params), std::move(directives)), std::move(argIncludeDeprecated));
@@ -295,10 +292,7 @@ std::future<service::ResolverResult> Type::resolveEnumValues(service::ResolverPa
 		return values;
 	}();
 
-	auto pairIncludeDeprecated = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("includeDeprecated", params.arguments);
-	auto argIncludeDeprecated = (pairIncludeDeprecated.second
-		? std::move(pairIncludeDeprecated.first)
-		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", defaultArguments));
+	auto argIncludeDeprecated = service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", (params.arguments.find("includeDeprecated") == params.arguments.end() ? defaultArguments : params.arguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getEnumValues(service::FieldParams(std::move(params), std::move(directives)), std::move(argIncludeDeprecated));
diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index 0de251b..f95db2c 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -1868,18 +1868,15 @@ std::string Generator::getArgumentDeclaration(const InputField& argument, const
 	}
 	else
 	{
-		argumentDeclaration << R"cpp(	auto pair)cpp" << argumentName << R"cpp( = )cpp"
-							<< getArgumentAccessType(argument) << R"cpp(::find)cpp"
+		// Only use the default value if the argument is missing. If it is present but it does not
+		// match the type, that is an error.
+		argumentDeclaration << R"cpp(	auto )cpp" << prefixToken << argumentName << R"cpp( = )cpp"
+							<< getArgumentAccessType(argument) << R"cpp(::require)cpp"
 							<< getTypeModifiers(argument.modifiers) << R"cpp((")cpp"
-							<< argument.name << R"cpp(", )cpp" << argumentsToken << R"cpp();
-	auto )cpp" << prefixToken
-							<< argumentName << R"cpp( = (pair)cpp" << argumentName << R"cpp(.second
-		? std::move(pair)cpp"
-							<< argumentName << R"cpp(.first)
-		: )cpp" << getArgumentAccessType(argument)
-							<< R"cpp(::require)cpp" << getTypeModifiers(argument.modifiers)
-							<< R"cpp((")cpp" << argument.name << R"cpp(", )cpp" << defaultToken
-							<< R"cpp());
+							<< argument.name << R"cpp(", ()cpp" << argumentsToken
+							<< R"cpp(.find(")cpp" << argument.name << R"cpp(") == )cpp"
+							<< argumentsToken << R"cpp(.end() ? )cpp" << defaultToken
+							<< R"cpp( : )cpp" << argumentsToken << R"cpp());
 )cpp";
 	}
 
-- 
2.43.0


From e40e99f221e185186cfc32f487837c98e20b94e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:46 +0000
Subject: [PATCH 21/34] fix: create the shared schema under a lock

Services constructed at the same time on several threads raced on the static
weak_ptr in the generated GetSchema().
---
 samples/separate/TodaySchema.cpp                 | 3 +++
 samples/separate_nointrospection/TodaySchema.cpp | 3 +++
 samples/unified/TodaySchema.cpp                  | 3 +++
 samples/unified_nointrospection/TodaySchema.cpp  | 3 +++
 samples/validation/ValidationSchema.cpp          | 3 +++
 src/IntrospectionSchema.cpp                      | 1 +
 src/SchemaGenerator.cpp                          | 3 +++
 7 files changed, 19 insertions(+)

diff --git a/samples/separate/TodaySchema.cpp b/samples/separate/TodaySchema.cpp
index 7430ed2..942dd82 100644
--- a/samples/separate/TodaySchema.cpp
+++ b/samples/separate/TodaySchema.cpp
@@ -10,6 +10,7 @@
 #include <algorithm>
 #include <array>
 #include <functional>
+#include <mutex>
 #include <sstream>
 #include <stdexcept>
 #include <string_view>
@@ -299,7 +300,9 @@ void AddTypesToSchema(const std::shared_ptr<schema::Schema>& schema)
 
 std::shared_ptr<schema::Schema> GetSchema()
 {
+	static std::mutex s_schemaMutex;
 	static std::weak_ptr<schema::Schema> s_wpSchema;
+	const std::lock_guard<std::mutex> lock(s_schemaMutex);
 	auto schema = s_wpSchema.lock();
 
 	if (!schema)
diff --git a/samples/separate_nointrospection/TodaySchema.cpp b/samples/separate_nointrospection/TodaySchema.cpp
index 4f8b87f..1454347 100644
--- a/samples/separate_nointrospection/TodaySchema.cpp
+++ b/samples/separate_nointrospection/TodaySchema.cpp
@@ -10,6 +10,7 @@
 #include <algorithm>
 #include <array>
 #include <functional>
+#include <mutex>
 #include <sstream>
 #include <stdexcept>
 #include <string_view>
@@ -299,7 +300,9 @@ void AddTypesToSchema(const std::shared_ptr<schema::Schema>& schema)
 
 std::shared_ptr<schema::Schema> GetSchema()
 {
+	static std::mutex s_schemaMutex;
 	static std::weak_ptr<schema::Schema> s_wpSchema;
+	const std::lock_guard<std::mutex> lock(s_schemaMutex);
 	auto schema = s_wpSchema.lock();
 
 	if (!schema)
diff --git a/samples/unified/TodaySchema.cpp b/samples/unified/TodaySchema.cpp
index c9b84f2..66b918e 100644
--- a/samples/unified/TodaySchema.cpp
+++ b/samples/unified/TodaySchema.cpp
@@ -10,6 +10,7 @@
 #include <algorithm>
 #include <array>
 #include <functional>
+#include <mutex>
 #include <sstream>
 #include <stdexcept>
 #include <string_view>
@@ -1426,7 +1427,9 @@ void AddTypesToSchema(const std::shared_ptr<schema::Schema>& schema)
 
 std::shared_ptr<schema::Schema> GetSchema()
 {
+	static std::mutex s_schemaMutex;
 	static std::weak_ptr<schema::Schema> s_wpSchema;
+	const std::lock_guard<std::mutex> lock(s_schemaMutex);
 	auto schema = s_wpSchema.lock();
 
 	if (!schema)
diff --git a/samples/unified_nointrospection/TodaySchema.cpp b/samples/unified_nointrospection/TodaySchema.cpp
index 28bb9a1..fa22707 100644
--- a/samples/unified_nointrospection/TodaySchema.cpp
+++ b/samples/unified_nointrospection/TodaySchema.cpp
@@ -10,6 +10,7 @@
 #include <algorithm>
 #include <array>
 #include <functional>
+#include <mutex>
 #include <sstream>
 #include <stdexcept>
 #include <string_view>
@@ -1409,7 +1410,9 @@ void AddTypesToSchema(const std::shared_ptr<schema::Schema>& schema)
 
 std::shared_ptr<schema::Schema> GetSchema()
 {
+	static std::mutex s_schemaMutex;
 	static std::weak_ptr<schema::Schema> s_wpSchema;
+	const std::lock_guard<std::mutex> lock(s_schemaMutex);
 	auto schema = s_wpSchema.lock();
 
 	if (!schema)
diff --git a/samples/validation/ValidationSchema.cpp b/samples/validation/ValidationSchema.cpp
index 7afc6fa..a8cd25a 100644
--- a/samples/validation/ValidationSchema.cpp
+++ b/samples/validation/ValidationSchema.cpp
@@ -10,6 +10,7 @@
 #include <algorithm>
 #include <array>
 #include <functional>
+#include <mutex>
 #include <sstream>
 #include <stdexcept>
 #include <string_view>
@@ -1053,7 +1054,9 @@ void AddTypesToSchema(const std::shared_ptr<schema::Schema>& schema)
 
 std::shared_ptr<schema::Schema> GetSchema()
 {
+	static std::mutex s_schemaMutex;
 	static std::weak_ptr<schema::Schema> s_wpSchema;
+	const std::lock_guard<std::mutex> lock(s_schemaMutex);
 	auto schema = s_wpSchema.lock();
 
 	if (!schema)
diff --git a/src/IntrospectionSchema.cpp b/src/IntrospectionSchema.cpp
index 7cd0db9..461f781 100644
--- a/src/IntrospectionSchema.cpp
+++ b/src/IntrospectionSchema.cpp
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <array>
 #include <functional>
+#include <mutex>
 #include <sstream>
 #include <stdexcept>
 #include <string_view>
diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index f95db2c..44bbe4b 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -586,6 +586,7 @@ bool Generator::outputSource() const noexcept
 #include <algorithm>
 #include <array>
 #include <functional>
+#include <mutex>
 #include <sstream>
 #include <stdexcept>
 #include <string_view>
@@ -1340,7 +1341,9 @@ Operations::Operations()cpp";
 	{
 		sourceFile << R"cpp(std::shared_ptr<schema::Schema> GetSchema()
 {
+	static std::mutex s_schemaMutex;
 	static std::weak_ptr<schema::Schema> s_wpSchema;
+	const std::lock_guard<std::mutex> lock(s_schemaMutex);
 	auto schema = s_wpSchema.lock();
 
 	if (!schema)
-- 
2.43.0


From b8ec1a036860976a703afbbe7e811e0b2df45eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:47 +0000
Subject: [PATCH 22/34] fix: keep the whole text of descriptions with escape
 sequences

Only the part in front of the first escape sequence arrived in the generated schema.
---
 src/SchemaLoader.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index cd347d7..bfe0951 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -657,7 +657,7 @@ void SchemaLoader::visitObjectTypeDefinition(const peg::ast_node& objectTypeDefi
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -718,7 +718,7 @@ void SchemaLoader::visitInterfaceTypeDefinition(const peg::ast_node& interfaceTy
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -775,7 +775,7 @@ void SchemaLoader::visitInputObjectTypeDefinition(const peg::ast_node& inputObje
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -831,7 +831,7 @@ void SchemaLoader::visitEnumTypeDefinition(const peg::ast_node& enumTypeDefiniti
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -873,7 +873,7 @@ void SchemaLoader::visitEnumTypeExtension(const peg::ast_node& enumTypeExtension
 				[&value](const peg::ast_node& description) {
 					if (!description.children.empty())
 					{
-						value.description = description.children.front()->unescaped_view();
+						value.description = description.unescaped_view();
 					}
 				});
 
@@ -936,7 +936,7 @@ void SchemaLoader::visitScalarTypeDefinition(const peg::ast_node& scalarTypeDefi
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -959,7 +959,7 @@ void SchemaLoader::visitUnionTypeDefinition(const peg::ast_node& unionTypeDefini
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -1008,7 +1008,7 @@ void SchemaLoader::visitDirectiveDefinition(const peg::ast_node& directiveDefini
 		[&directive](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				directive.description = child.children.front()->unescaped_view();
+				directive.description = child.unescaped_view();
 			}
 		});
 
@@ -1094,7 +1094,7 @@ OutputFieldList SchemaLoader::getOutputFields(const peg::ast_node::children_t& f
 			}
 			else if (child->is_type<peg::description>() && !child->children.empty())
 			{
-				field.description = child->children.front()->unescaped_view();
+				field.description = child->unescaped_view();
 			}
 			else if (child->is_type<peg::directives>())
 			{
@@ -1182,7 +1182,7 @@ InputFieldList SchemaLoader::getInputFields(const peg::ast_node::children_t& fie
 			}
 			else if (child->is_type<peg::description>() && !child->children.empty())
 			{
-				field.description = child->children.front()->unescaped_view();
+				field.description = child->unescaped_view();
 			}
 		}
 
-- 
2.43.0


From 942efee2304aa852b71f9ecef131557c00fff9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 23/34] fix: report invalid JSON documents and keep embedded
 NUL characters

parseJSON ignored the parse result, so a truncated or damaged document
came back as a partial or null value, and keys or strings with embedded
NUL characters were cut short in both directions.
---
 src/JSONResponse.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/JSONResponse.cpp b/src/JSONResponse.cpp
index c0d9172..52160ac 100644
--- a/src/JSONResponse.cpp
+++ b/src/JSONResponse.cpp
@@ -6,11 +6,14 @@
 #define RAPIDJSON_NAMESPACE graphql::rapidjson
 #include <rapidjson/rapidjson.h>
 
+#include <rapidjson/error/en.h>
+#include <rapidjson/memorystream.h>
 #include <rapidjson/reader.h>
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
 
 #include <limits>
+#include <sstream>
 #include <stdexcept>
 #include <vector>
 
@@ -28,7 +31,7 @@ void writeResponse(rapidjson::Writer<rapidjson::StringBuffer>& writer, Value&& r
 
 			for (auto& entry : members)
 			{
-				writer.Key(entry.first.c_str());
+				writer.Key(entry.first.c_str(), static_cast<rapidjson::SizeType>(entry.first.size()));
 				writeResponse(writer, std::move(entry.second));
 			}
 
@@ -56,7 +59,7 @@ void writeResponse(rapidjson::Writer<rapidjson::StringBuffer>& writer, Value&& r
 		{
 			auto value = response.release<StringType>();
 
-			writer.String(value.c_str());
+			writer.String(value.c_str(), static_cast<rapidjson::SizeType>(value.size()));
 			break;
 		}
 
@@ -178,9 +181,9 @@ struct ResponseHandler : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, Respons
 		return true;
 	}
 
-	bool String(const Ch* str, rapidjson::SizeType /*length*/, bool /*copy*/)
+	bool String(const Ch* str, rapidjson::SizeType length, bool /*copy*/)
 	{
-		setValue(Value(std::string(str)).from_json());
+		setValue(Value(std::string(str, length)).from_json());
 		return true;
 	}
 
@@ -190,9 +193,9 @@ struct ResponseHandler : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, Respons
 		return true;
 	}
 
-	bool Key(const Ch* str, rapidjson::SizeType /*length*/, bool /*copy*/)
+	bool Key(const Ch* str, rapidjson::SizeType length, bool /*copy*/)
 	{
-		_keyStack.push_back(str);
+		_keyStack.emplace_back(str, length);
 		return true;
 	}
 
@@ -242,9 +245,20 @@ Value parseJSON(const std::string& json)
 {
 	ResponseHandler handler;
 	rapidjson::Reader reader;
-	rapidjson::StringStream ss(json.c_str());
+	rapidjson::MemoryStream stream(json.data(), json.size());
+	const rapidjson::ParseResult result = reader.Parse(stream, handler);
 
-	reader.Parse(ss, handler);
+	if (result.IsError() || stream.Tell() != json.size())
+	{
+		std::ostringstream message;
+
+		message << "Invalid JSON: "
+				<< (result.IsError() ? rapidjson::GetParseError_En(result.Code())
+									 : "Unexpected null character.")
+				<< " offset: " << (result.IsError() ? result.Offset() : stream.Tell());
+
+		throw std::runtime_error { message.str() };
+	}
 
 	return handler.getResponse();
 }
-- 
2.43.0


From 8a3956b8546cfec61a4b554e45220e8e22039577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 24/34] fix: generate client variables of every type

Scalar, nullable, list and nested input variables generated code which
did not compile, and input types which reference themselves hung
clientgen.
---
 include/ClientGenerator.h              |  1 +
 include/RequestLoader.h                |  2 ++
 include/graphqlservice/GraphQLClient.h |  2 +-
 src/ClientGenerator.cpp                | 24 +++++++++++++++++++-----
 src/RequestLoader.cpp                  | 20 +++++++++++++++++---
 5 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/include/ClientGenerator.h b/include/ClientGenerator.h
index 36def4f..7c4b8bf 100644
--- a/include/ClientGenerator.h
+++ b/include/ClientGenerator.h
@@ -43,6 +43,7 @@ private:
 	const std::string& getFullNamespace() const noexcept;
 	std::string getResponseFieldCppType(
 		const ResponseField& responseField, std::string_view currentScope = {}) const noexcept;
+	std::string getVariableCppType(const RequestSchemaType& inputType) const noexcept;
 
 	bool outputHeader() const noexcept;
 	void outputRequestComment(std::ostream& headerFile) const noexcept;
diff --git a/include/RequestLoader.h b/include/RequestLoader.h
index 0f1fef6..9eca41b 100644
--- a/include/RequestLoader.h
+++ b/include/RequestLoader.h
@@ -80,6 +80,8 @@ public:
 	const RequestSchemaTypeList& getReferencedEnums() const noexcept;
 
 	std::string getInputCppType(const RequestSchemaType& wrappedInputType) const noexcept;
+	std::string getInputCppType(
+		const RequestSchemaType& inputType, const TypeModifierStack& modifiers) const noexcept;
 	static std::string getOutputCppType(
 		std::string_view outputCppType, const TypeModifierStack& modifiers) noexcept;
 
diff --git a/include/graphqlservice/GraphQLClient.h b/include/graphqlservice/GraphQLClient.h
index 4893381..190f190 100644
--- a/include/graphqlservice/GraphQLClient.h
+++ b/include/graphqlservice/GraphQLClient.h
@@ -129,7 +129,7 @@ struct ModifiedVariable
 		response::Value result { response::Type::List };
 
 		result.reserve(listValue.size());
-		std::for_each(listValue.begin(), listValue.end(), [&result](auto& value) {
+		std::for_each(listValue.begin(), listValue.end(), [&result](auto&& value) {
 			result.emplace_back(serialize<Other...>(std::move(value)));
 		});
 		listValue.clear();
diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index 5c69973..594b129 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -168,6 +168,19 @@ std::string Generator::getResponseFieldCppType(
 	return result;
 }
 
+std::string Generator::getVariableCppType(const RequestSchemaType& inputType) const noexcept
+{
+	std::string result { _schemaLoader.getCppType(inputType->name()) };
+
+	if (inputType->kind() == introspection::TypeKind::INPUT_OBJECT)
+	{
+		// The input object types are nested in the Variables type.
+		result = R"cpp(Variables::)cpp" + result;
+	}
+
+	return result;
+}
+
 std::vector<std::string> Generator::Build() const noexcept
 {
 	std::vector<std::string> builtFiles;
@@ -279,7 +292,8 @@ static_assert(graphql::internal::MinorVersion == )cpp"
 
 		for (const auto& variable : variables)
 		{
-			headerFile << R"cpp(	)cpp" << _schemaLoader.getCppType(variable.type->name())
+			headerFile << R"cpp(	)cpp"
+					   << _requestLoader.getInputCppType(variable.type, variable.modifiers)
 					   << R"cpp( )cpp" << variable.cppName << R"cpp( {};
 )cpp";
 		}
@@ -543,8 +557,8 @@ response::Value ModifiedVariable<Variables::)cpp"
 					RequestLoader::unwrapSchemaType(inputField->type().lock());
 
 				sourceFile << R"cpp(	result.emplace_back(R"js()cpp" << inputField->name()
-						   << R"cpp()js"s, ModifiedVariable<)cpp"
-						   << _schemaLoader.getCppType(type->name()) << R"cpp(>::serialize)cpp"
+						   << R"cpp()js"s, ModifiedVariable<)cpp" << getVariableCppType(type)
+						   << R"cpp(>::serialize)cpp"
 						   << getTypeModifierList(modifiers) << R"cpp((std::move(inputValue.)cpp"
 						   << SchemaLoader::getSafeCppName(inputField->name()) << R"cpp()));
 )cpp";
@@ -625,8 +639,8 @@ response::Value serializeVariables(Variables&& variables)
 		for (const auto& variable : variables)
 		{
 			sourceFile << R"cpp(	result.emplace_back(R"js()cpp" << variable.name
-					   << R"cpp()js"s, ModifiedVariable<Variables::)cpp"
-					   << _schemaLoader.getCppType(variable.type->name()) << R"cpp(>::serialize)cpp"
+					   << R"cpp()js"s, ModifiedVariable<)cpp" << getVariableCppType(variable.type)
+					   << R"cpp(>::serialize)cpp"
 					   << getTypeModifierList(variable.modifiers)
 					   << R"cpp((std::move(variables.)cpp" << variable.cppName << R"cpp()));
 )cpp";
diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index 73c7b90..edd3ec4 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -137,10 +137,17 @@ const RequestSchemaTypeList& RequestLoader::getReferencedEnums() const noexcept
 }
 
 std::string RequestLoader::getInputCppType(const RequestSchemaType& wrappedInputType) const noexcept
+{
+	const auto [inputType, modifiers] = unwrapSchemaType(RequestSchemaType { wrappedInputType });
+
+	return getInputCppType(inputType, modifiers);
+}
+
+std::string RequestLoader::getInputCppType(
+	const RequestSchemaType& inputType, const TypeModifierStack& modifiers) const noexcept
 {
 	size_t templateCount = 0;
 	std::ostringstream cppType;
-	auto [inputType, modifiers] = unwrapSchemaType(RequestSchemaType { wrappedInputType });
 
 	for (auto modifier : modifiers)
 	{
@@ -857,9 +864,10 @@ void RequestLoader::reorderInputTypeDependencies() noexcept
 			std::for_each(fields.begin(),
 				fields.end(),
 				[&result](const std::shared_ptr<const schema::InputValue>& field) noexcept {
-					const auto fieldType = field->type().lock();
+					const auto fieldType = unwrapSchemaType(field->type().lock()).first;
 
-					if (fieldType->kind() == introspection::TypeKind::INPUT_OBJECT)
+					if (fieldType->kind() == introspection::TypeKind::INPUT_OBJECT
+						&& fieldType->name() != result.name)
 					{
 						result.dependencies.insert(fieldType->name());
 					}
@@ -885,6 +893,12 @@ void RequestLoader::reorderInputTypeDependencies() noexcept
 					== entry.dependencies.cend();
 			});
 
+		if (itrDependent == itr)
+		{
+			// The rest of them depend on each other.
+			break;
+		}
+
 		if (itrDependent != inputTypes.end())
 		{
 			std::for_each(itr,
-- 
2.43.0


From ca9da85641769fa10e26f64bd8d4c487b38a9e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 25/34] fix: parse floating point literals with fraction and
 exponent

---
 include/graphqlservice/internal/Grammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 1e95e2d..9cbc778 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -224,7 +224,7 @@ struct exponent_part : if_must<exponent_indicator, exponent_part_content>
 
 // http://spec.graphql.org/June2018/#FloatValue
 struct float_value
-	: seq<integer_part, sor<fractional_part, exponent_part, seq<fractional_part, exponent_part>>>
+	: seq<integer_part, sor<seq<fractional_part, opt<exponent_part>>, exponent_part>>
 {
 };
 
-- 
2.43.0


From fce593a1b4c8a5fcd1c572ba7f7e5e102fb07de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 26/34] fix: generate default values of type Float with full
 precision

---
 src/SchemaGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index 44bbe4b..050817a 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -37,7 +37,9 @@
 
 #include <cctype>
 #include <fstream>
+#include <iomanip>
 #include <iostream>
+#include <limits>
 #include <regex>
 #include <sstream>
 #include <stdexcept>
@@ -1816,6 +1818,7 @@ std::string Generator::getArgumentDefaultValue(
 			argumentDefaultValue
 				<< padding
 				<< R"cpp(		entry = response::Value(static_cast<response::FloatType>()cpp"
+				<< std::setprecision(std::numeric_limits<response::FloatType>::max_digits10)
 				<< defaultValue.get<response::FloatType>() << R"cpp());
 )cpp";
 			break;
-- 
2.43.0


From decfc07f091cb7cdf5b1572595813051b31cf5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 27/34] fix: generate valid string literals for default values

---
 src/SchemaGenerator.cpp | 47 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index 050817a..bd723ac 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -35,6 +35,7 @@
 #endif
 // clang-format on
 
+#include <algorithm>
 #include <cctype>
 #include <fstream>
 #include <iomanip>
@@ -1720,6 +1721,46 @@ void Generator::outputObjectIntrospection(
 	}
 }
 
+// Most strings fit in a raw string literal, but those which contain its delimiter or control
+// characters need escape sequences.
+static std::string getStringLiteral(const std::string& value)
+{
+	const bool isRaw = value.find(R"cpp()gql")cpp") == std::string::npos
+		&& std::all_of(value.cbegin(), value.cend(), [](unsigned char ch) noexcept {
+			   return ch == '\n' || ch == '\t' || ch >= ' ';
+		   });
+
+	if (isRaw)
+	{
+		return R"cpp(R"gql()cpp" + value + R"cpp()gql")cpp";
+	}
+
+	std::ostringstream literal;
+
+	literal << '"' << std::oct << std::setfill('0');
+
+	for (const unsigned char ch : value)
+	{
+		if (ch == '"' || ch == '\\')
+		{
+			literal << '\\' << ch;
+		}
+		else if (ch < ' ')
+		{
+			literal << '\\' << std::setw(3) << static_cast<unsigned int>(ch);
+		}
+		else
+		{
+			literal << ch;
+		}
+	}
+
+	// Include any null characters.
+	literal << R"cpp("sv)cpp";
+
+	return literal.str();
+}
+
 std::string Generator::getArgumentDefaultValue(
 	size_t level, const response::Value& defaultValue) const noexcept
 {
@@ -1779,9 +1820,9 @@ std::string Generator::getArgumentDefaultValue(
 
 		case response::Type::String:
 		{
-			argumentDefaultValue << padding
-								 << R"cpp(		entry = response::Value(std::string(R"gql()cpp"
-								 << defaultValue.get<response::StringType>() << R"cpp()gql"));
+			argumentDefaultValue << padding << R"cpp(		entry = response::Value(std::string()cpp"
+								 << getStringLiteral(defaultValue.get<response::StringType>())
+								 << R"cpp());
 )cpp";
 			break;
 		}
-- 
2.43.0


From ef2dbb81d464e3236ed5f4e39402f32778d97d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:03 +0000
Subject: [PATCH 28/34] fix: reject JSON numbers out of the range of double

---
 src/JSONResponse.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/JSONResponse.cpp b/src/JSONResponse.cpp
index 52160ac..7d428d8 100644
--- a/src/JSONResponse.cpp
+++ b/src/JSONResponse.cpp
@@ -12,6 +12,7 @@
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
 
+#include <cmath>
 #include <limits>
 #include <sstream>
 #include <stdexcept>
@@ -174,6 +175,12 @@ struct ResponseHandler : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, Respons
 
 	bool Double(double d)
 	{
+		if (!std::isfinite(d))
+		{
+			// http://spec.graphql.org/June2018/#sec-Float
+			throw std::overflow_error("GraphQL only supports double-precision fractional values");
+		}
+
 		auto value = Value(Type::Float);
 
 		value.set<FloatType>(std::move(d));
-- 
2.43.0


From c54dfabb6cbaac4cf501fa56fe1ffc39e48be28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:06 +0000
Subject: [PATCH 29/34] fix: deprecate without reason in schema files

---
 src/SchemaLoader.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index bfe0951..2df2740 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -889,7 +889,8 @@ void SchemaLoader::visitEnumTypeExtension(const peg::ast_node& enumTypeExtension
 
 						if (directiveName == "deprecated")
 						{
-							std::string_view reason;
+							// http://spec.graphql.org/June2018/#sec--deprecated
+							value.deprecationReason = "No longer supported"sv;
 
 							peg::on_first_child<peg::arguments>(directive,
 								[&value](const peg::ast_node& arguments) {
@@ -1109,7 +1110,8 @@ OutputFieldList SchemaLoader::getOutputFields(const peg::ast_node::children_t& f
 
 						if (directiveName == "deprecated")
 						{
-							std::string_view deprecationReason;
+							// http://spec.graphql.org/June2018/#sec--deprecated
+							std::string_view deprecationReason { "No longer supported"sv };
 
 							peg::on_first_child<peg::arguments>(directive,
 								[&deprecationReason](const peg::ast_node& arguments) {
-- 
2.43.0


From 98a1c58c6f26ef8749a0660738db84a7042d4478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 30/34] fix: report a request file that cannot be opened

---
 src/RequestLoader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index edd3ec4..bd24847 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -15,6 +15,7 @@
 #include <fstream>
 #include <iterator>
 #include <sstream>
+#include <stdexcept>
 
 using namespace std::literals;
 
@@ -25,6 +26,12 @@ RequestLoader::RequestLoader(RequestOptions&& requestOptions, const SchemaLoader
 	, _schemaLoader(schemaLoader)
 {
 	std::ifstream document { _requestOptions.requestFilename };
+
+	if (!document)
+	{
+		throw std::runtime_error("Unable to read the file: " + _requestOptions.requestFilename);
+	}
+
 	std::istreambuf_iterator<char> itr { document }, itrEnd;
 	_requestText = std::string { itr, itrEnd };
 
-- 
2.43.0


From 7e01078c2be0a5eb7c37c0bccf869616d45a30fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 31/34] fix: report failed output of the generators

---
 include/ClientGenerator.h |   8 +--
 include/GeneratorUtil.h   |   7 +++
 include/SchemaGenerator.h |  10 ++--
 src/ClientGenerator.cpp   |  29 ++++++++---
 src/GeneratorUtil.cpp     |  21 ++++++++
 src/SchemaGenerator.cpp   | 103 ++++++++++++++++++++++++--------------
 6 files changed, 127 insertions(+), 51 deletions(-)

diff --git a/include/ClientGenerator.h b/include/ClientGenerator.h
index 7c4b8bf..e934ba7 100644
--- a/include/ClientGenerator.h
+++ b/include/ClientGenerator.h
@@ -31,7 +31,7 @@ public:
 		SchemaOptions&& schemaOptions, RequestOptions&& requestOptions, GeneratorOptions&& options);
 
 	// Run the generator and return a list of filenames that were output.
-	std::vector<std::string> Build() const noexcept;
+	std::vector<std::string> Build() const;
 
 private:
 	std::string getHeaderDir() const noexcept;
@@ -45,13 +45,15 @@ private:
 		const ResponseField& responseField, std::string_view currentScope = {}) const noexcept;
 	std::string getVariableCppType(const RequestSchemaType& inputType) const noexcept;
 
-	bool outputHeader() const noexcept;
+	bool outputHeader() const;
+	void outputHeader(std::ostream& headerFile) const;
 	void outputRequestComment(std::ostream& headerFile) const noexcept;
 	void outputGetRequestDeclaration(std::ostream& headerFile) const noexcept;
 	bool outputResponseFieldType(std::ostream& headerFile, const ResponseField& responseField,
 		size_t indent = 0) const noexcept;
 
-	bool outputSource() const noexcept;
+	bool outputSource() const;
+	void outputSource(std::ostream& sourceFile) const;
 	void outputGetRequestImplementation(std::ostream& sourceFile) const noexcept;
 	bool outputModifiedResponseImplementation(std::ostream& sourceFile,
 		const std::string& outerScope, const ResponseField& responseField) const noexcept;
diff --git a/include/GeneratorUtil.h b/include/GeneratorUtil.h
index c061fe1..33a96e6 100644
--- a/include/GeneratorUtil.h
+++ b/include/GeneratorUtil.h
@@ -6,6 +6,7 @@
 #ifndef GENERATORUTIL_H
 #define GENERATORUTIL_H
 
+#include <fstream>
 #include <iostream>
 #include <string>
 #include <string_view>
@@ -57,6 +58,12 @@ private:
 	std::ostream& _outputFile;
 };
 
+// Close an output file once everything has been written, throws if any of it failed.
+void closeOutputFile(std::ofstream& outputFile, const std::string& fileName);
+
+// Make sure that the list of filenames was written, throws if any of it failed.
+void flushFileList(std::ostream& outputList);
+
 } // namespace graphql::generator
 
 #endif // GENERATORUTIL_H
diff --git a/include/SchemaGenerator.h b/include/SchemaGenerator.h
index 1b61728..5fa25d4 100644
--- a/include/SchemaGenerator.h
+++ b/include/SchemaGenerator.h
@@ -32,7 +32,7 @@ public:
 	explicit Generator(std::optional<SchemaOptions>&& customSchema, GeneratorOptions&& options);
 
 	// Run the generator and return a list of filenames that were output.
-	std::vector<std::string> Build() const noexcept;
+	std::vector<std::string> Build() const;
 
 private:
 	std::string getHeaderDir() const noexcept;
@@ -41,14 +41,16 @@ private:
 	std::string getObjectHeaderPath() const noexcept;
 	std::string getSourcePath() const noexcept;
 
-	bool outputHeader() const noexcept;
+	bool outputHeader() const;
+	void outputHeader(std::ostream& headerFile) const;
 	void outputObjectDeclaration(
 		std::ostream& headerFile, const ObjectType& objectType, bool isQueryType) const;
 	std::string getFieldDeclaration(const InputField& inputField) const noexcept;
 	std::string getFieldDeclaration(const OutputField& outputField) const noexcept;
 	std::string getResolverDeclaration(const OutputField& outputField) const noexcept;
 
-	bool outputSource() const noexcept;
+	bool outputSource() const;
+	void outputSource(std::ostream& sourceFile) const;
 	void outputObjectImplementation(
 		std::ostream& sourceFile, const ObjectType& objectType, bool isQueryType) const;
 	void outputObjectIntrospection(std::ostream& sourceFile, const ObjectType& objectType) const;
@@ -62,7 +64,7 @@ private:
 	std::string getIntrospectionType(
 		std::string_view type, const TypeModifierStack& modifiers) const noexcept;
 
-	std::vector<std::string> outputSeparateFiles() const noexcept;
+	std::vector<std::string> outputSeparateFiles() const;
 
 	static const std::string s_currentDirectory;
 
diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index 594b129..ce35132 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -181,7 +181,7 @@ std::string Generator::getVariableCppType(const RequestSchemaType& inputType) co
 	return result;
 }
 
-std::vector<std::string> Generator::Build() const noexcept
+std::vector<std::string> Generator::Build() const
 {
 	std::vector<std::string> builtFiles;
 
@@ -198,9 +198,18 @@ std::vector<std::string> Generator::Build() const noexcept
 	return builtFiles;
 }
 
-bool Generator::outputHeader() const noexcept
+bool Generator::outputHeader() const
 {
 	std::ofstream headerFile(_headerPath, std::ios_base::trunc);
+
+	outputHeader(headerFile);
+	closeOutputFile(headerFile, _headerPath);
+
+	return true;
+}
+
+void Generator::outputHeader(std::ostream& headerFile) const
+{
 	IncludeGuardScope includeGuard { headerFile, fs::path(_headerPath).filename().string() };
 
 	headerFile << R"cpp(#include "graphqlservice/GraphQLClient.h"
@@ -343,8 +352,6 @@ Response parseResponse(response::Value&& response);
 
 	pendingSeparator.add();
 	pendingSeparator.reset();
-
-	return true;
 }
 
 void Generator::outputRequestComment(std::ostream& headerFile) const noexcept
@@ -451,10 +458,18 @@ bool Generator::outputResponseFieldType(std::ostream& headerFile,
 	return true;
 }
 
-bool Generator::outputSource() const noexcept
+bool Generator::outputSource() const
 {
 	std::ofstream sourceFile(_sourcePath, std::ios_base::trunc);
 
+	outputSource(sourceFile);
+	closeOutputFile(sourceFile, _sourcePath);
+
+	return true;
+}
+
+void Generator::outputSource(std::ostream& sourceFile) const
+{
 	sourceFile << R"cpp(// Copyright (c) Microsoft Corporation. All rights reserved.
 // Licensed under the MIT License.
 
@@ -693,8 +708,6 @@ Response parseResponse(response::Value&& response)
 )cpp";
 
 	pendingSeparator.reset();
-
-	return true;
 }
 
 void Generator::outputGetRequestImplementation(std::ostream& sourceFile) const noexcept
@@ -995,6 +1008,8 @@ int main(int argc, char** argv)
 		{
 			std::cout << file << std::endl;
 		}
+
+		graphql::generator::flushFileList(std::cout);
 	}
 	catch (const graphql::peg::parse_error& pe)
 	{
diff --git a/src/GeneratorUtil.cpp b/src/GeneratorUtil.cpp
index b05acea..f977b7e 100644
--- a/src/GeneratorUtil.cpp
+++ b/src/GeneratorUtil.cpp
@@ -4,6 +4,7 @@
 #include "GeneratorUtil.h"
 
 #include <algorithm>
+#include <stdexcept>
 
 namespace graphql::generator {
 
@@ -138,4 +139,24 @@ bool PendingBlankLine::reset() noexcept
 	return false;
 }
 
+void closeOutputFile(std::ofstream& outputFile, const std::string& fileName)
+{
+	outputFile.close();
+
+	if (!outputFile)
+	{
+		throw std::runtime_error("Unable to write the file: " + fileName);
+	}
+}
+
+void flushFileList(std::ostream& outputList)
+{
+	outputList.flush();
+
+	if (!outputList)
+	{
+		throw std::runtime_error("Unable to write the list of files");
+	}
+}
+
 } // namespace graphql::generator
\ No newline at end of file
diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index bd723ac..97f24b8 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -113,7 +113,7 @@ std::string Generator::getSourcePath() const noexcept
 	return fullPath.string();
 }
 
-std::vector<std::string> Generator::Build() const noexcept
+std::vector<std::string> Generator::Build() const
 {
 	std::vector<std::string> builtFiles;
 
@@ -140,9 +140,18 @@ std::vector<std::string> Generator::Build() const noexcept
 	return builtFiles;
 }
 
-bool Generator::outputHeader() const noexcept
+bool Generator::outputHeader() const
 {
 	std::ofstream headerFile(_headerPath, std::ios_base::trunc);
+
+	outputHeader(headerFile);
+	closeOutputFile(headerFile, _headerPath);
+
+	return true;
+}
+
+void Generator::outputHeader(std::ostream& headerFile) const
+{
 	IncludeGuardScope includeGuard { headerFile, fs::path(_headerPath).filename().string() };
 
 	headerFile << R"cpp(#include "graphqlservice/internal/Schema.h"
@@ -439,8 +448,6 @@ GRAPHQLINTROSPECTION_EXPORT )cpp"
 
 )cpp";
 	}
-
-	return true;
 }
 
 void Generator::outputObjectDeclaration(
@@ -565,10 +572,18 @@ std::string Generator::getResolverDeclaration(const OutputField& outputField) co
 	return output.str();
 }
 
-bool Generator::outputSource() const noexcept
+bool Generator::outputSource() const
 {
 	std::ofstream sourceFile(_sourcePath, std::ios_base::trunc);
 
+	outputSource(sourceFile);
+	closeOutputFile(sourceFile, _sourcePath);
+
+	return true;
+}
+
+void Generator::outputSource(std::ostream& sourceFile) const
+{
 	sourceFile << R"cpp(// Copyright (c) Microsoft Corporation. All rights reserved.
 // Licensed under the MIT License.
 
@@ -1364,8 +1379,6 @@ Operations::Operations()cpp";
 
 )cpp";
 	}
-
-	return true;
 }
 
 void Generator::outputObjectImplementation(
@@ -2100,7 +2113,7 @@ std::string Generator::getIntrospectionType(
 	return introspectionType.str();
 }
 
-std::vector<std::string> Generator::outputSeparateFiles() const noexcept
+std::vector<std::string> Generator::outputSeparateFiles() const
 {
 	std::vector<std::string> files;
 	const fs::path headerDir(_headerDir);
@@ -2118,22 +2131,27 @@ std::vector<std::string> Generator::outputSeparateFiles() const noexcept
 
 	// Output a convenience header
 	std::ofstream objectHeaderFile(_objectHeaderPath, std::ios_base::trunc);
-	IncludeGuardScope includeGuard { objectHeaderFile,
-		fs::path(_objectHeaderPath).filename().string() };
 
-	objectHeaderFile << R"cpp(#include ")cpp" << fs::path(_headerPath).filename().string()
-					 << R"cpp("
+	{
+		IncludeGuardScope includeGuard { objectHeaderFile,
+			fs::path(_objectHeaderPath).filename().string() };
+
+		objectHeaderFile << R"cpp(#include ")cpp" << fs::path(_headerPath).filename().string()
+						 << R"cpp("
 
 )cpp";
 
-	for (const auto& objectType : _loader.getObjectTypes())
-	{
-		const auto headerFilename = std::string(objectType.cppType) + "Object.h";
+		for (const auto& objectType : _loader.getObjectTypes())
+		{
+			const auto headerFilename = std::string(objectType.cppType) + "Object.h";
 
-		objectHeaderFile << R"cpp(#include ")cpp" << headerFilename << R"cpp("
+			objectHeaderFile << R"cpp(#include ")cpp" << headerFilename << R"cpp("
 )cpp";
+		}
 	}
 
+	closeOutputFile(objectHeaderFile, _objectHeaderPath);
+
 	if (_options.verbose)
 	{
 		files.push_back({ _objectHeaderPath });
@@ -2154,18 +2172,23 @@ std::vector<std::string> Generator::outputSeparateFiles() const noexcept
 		const auto headerFilename = std::string(objectType.cppType) + "Object.h";
 		auto headerPath = (headerDir / headerFilename).string();
 		std::ofstream headerFile(headerPath, std::ios_base::trunc);
-		IncludeGuardScope includeGuard { headerFile, headerFilename };
 
-		headerFile << R"cpp(#include ")cpp" << fs::path(_headerPath).filename().string() << R"cpp("
+		{
+			IncludeGuardScope includeGuard { headerFile, headerFilename };
+
+			headerFile << R"cpp(#include ")cpp" << fs::path(_headerPath).filename().string() << R"cpp("
 
 )cpp";
 
-		NamespaceScope headerNamespace { headerFile, objectNamespace };
+			NamespaceScope headerNamespace { headerFile, objectNamespace };
 
-		// Output the full declaration
-		headerFile << std::endl;
-		outputObjectDeclaration(headerFile, objectType, isQueryType);
-		headerFile << std::endl;
+			// Output the full declaration
+			headerFile << std::endl;
+			outputObjectDeclaration(headerFile, objectType, isQueryType);
+			headerFile << std::endl;
+		}
+
+		closeOutputFile(headerFile, headerPath);
 
 		if (_options.verbose)
 		{
@@ -2176,13 +2199,14 @@ std::vector<std::string> Generator::outputSeparateFiles() const noexcept
 		auto sourcePath = (sourceDir / sourceFilename).string();
 		std::ofstream sourceFile(sourcePath, std::ios_base::trunc);
 
-		sourceFile << R"cpp(// Copyright (c) Microsoft Corporation. All rights reserved.
+		{
+			sourceFile << R"cpp(// Copyright (c) Microsoft Corporation. All rights reserved.
 // Licensed under the MIT License.
 
 // WARNING! Do not edit this file manually, your changes will be overwritten.
 
 #include ")cpp" << fs::path(_objectHeaderPath).filename().string()
-				   << R"cpp("
+					   << R"cpp("
 
 #include "graphqlservice/introspection/Introspection.h"
 
@@ -2196,25 +2220,28 @@ using namespace std::literals;
 
 )cpp";
 
-		NamespaceScope sourceSchemaNamespace { sourceFile, schemaNamespace };
-		NamespaceScope sourceObjectNamespace { sourceFile, "object" };
+			NamespaceScope sourceSchemaNamespace { sourceFile, schemaNamespace };
+			NamespaceScope sourceObjectNamespace { sourceFile, "object" };
 
-		sourceFile << std::endl;
-		outputObjectImplementation(sourceFile, objectType, isQueryType);
-		sourceFile << std::endl;
+			sourceFile << std::endl;
+			outputObjectImplementation(sourceFile, objectType, isQueryType);
+			sourceFile << std::endl;
 
-		sourceObjectNamespace.exit();
-		sourceFile << std::endl;
+			sourceObjectNamespace.exit();
+			sourceFile << std::endl;
 
-		sourceFile << R"cpp(void Add)cpp" << objectType.cppType
-				   << R"cpp(Details(std::shared_ptr<schema::ObjectType> type)cpp"
-				   << objectType.cppType << R"cpp(, const std::shared_ptr<schema::Schema>& schema)
+			sourceFile << R"cpp(void Add)cpp" << objectType.cppType
+					   << R"cpp(Details(std::shared_ptr<schema::ObjectType> type)cpp"
+					   << objectType.cppType << R"cpp(, const std::shared_ptr<schema::Schema>& schema)
 {
 )cpp";
-		outputObjectIntrospection(sourceFile, objectType);
-		sourceFile << R"cpp(}
+			outputObjectIntrospection(sourceFile, objectType);
+			sourceFile << R"cpp(}
 
 )cpp";
+		}
+
+		closeOutputFile(sourceFile, sourcePath);
 
 		files.push_back(std::move(sourcePath));
 	}
@@ -2368,6 +2395,8 @@ int main(int argc, char** argv)
 				std::cout << file << std::endl;
 			}
 		}
+
+		graphql::generator::flushFileList(std::cout);
 	}
 	catch (const graphql::peg::parse_error& pe)
 	{
-- 
2.43.0


From b2f63675524cdfc88c8344672f4f118c2c723284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:47 +0000
Subject: [PATCH 32/34] fix: evaluate directives of fragment definitions where
 they are spread

---
 include/graphqlservice/GraphQLService.h |  6 ++--
 src/GraphQLService.cpp                  | 41 ++++++++++---------------
 2 files changed, 19 insertions(+), 28 deletions(-)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 5016cdf..90f6579 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -228,16 +228,16 @@ private:
 class Fragment
 {
 public:
-	explicit Fragment(const peg::ast_node& fragmentDefinition, const response::Value& variables);
+	explicit Fragment(const peg::ast_node& fragmentDefinition);
 
 	std::string_view getType() const;
 	const peg::ast_node& getSelection() const;
-	const response::Value& getDirectives() const;
+	response::Value getDirectives(const response::Value& variables) const;
 
 private:
 	std::string_view _type;
-	response::Value _directives;
 
+	std::reference_wrapper<const peg::ast_node> _definition;
 	std::reference_wrapper<const peg::ast_node> _selection;
 };
 
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 26f3333..24777e5 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -470,18 +470,11 @@ bool DirectiveVisitor::shouldSkip() const
 	return false;
 }
 
-Fragment::Fragment(const peg::ast_node& fragmentDefinition, const response::Value& variables)
+Fragment::Fragment(const peg::ast_node& fragmentDefinition)
 	: _type(fragmentDefinition.children[1]->children.front()->string_view())
-	, _directives(response::Type::Map)
+	, _definition(fragmentDefinition)
 	, _selection(*(fragmentDefinition.children.back()))
 {
-	peg::on_first_child<peg::directives>(fragmentDefinition,
-		[this, &variables](const peg::ast_node& child) {
-			DirectiveVisitor directiveVisitor(variables);
-
-			directiveVisitor.visit(child);
-			_directives = directiveVisitor.getDirectives();
-		});
 }
 
 std::string_view Fragment::getType() const
@@ -494,9 +487,16 @@ const peg::ast_node& Fragment::getSelection() const
 	return _selection.get();
 }
 
-const response::Value& Fragment::getDirectives() const
+response::Value Fragment::getDirectives(const response::Value& variables) const
 {
-	return _directives;
+	DirectiveVisitor directiveVisitor(variables);
+
+	peg::on_first_child<peg::directives>(_definition.get(),
+		[&directiveVisitor](const peg::ast_node& child) {
+			directiveVisitor.visit(child);
+		});
+
+	return directiveVisitor.getDirectives();
 }
 
 ResolverParams::ResolverParams(const SelectionSetParams& selectionSetParams,
@@ -1048,7 +1048,7 @@ void SelectionVisitor::visitFragmentSpread(const peg::ast_node& fragmentSpread)
 		}
 	}
 
-	response::Value fragmentDefinitionDirectives(itr->second.getDirectives());
+	auto fragmentDefinitionDirectives = itr->second.getDirectives(_variables);
 
 	// Merge outer fragment definition directives as long as they don't conflict.
 	for (const auto& entry : _fragmentDirectives.back().fragmentDefinitionDirectives)
@@ -1260,23 +1260,14 @@ OperationData::OperationData(std::shared_ptr<RequestState>&& state, response::Va
 class FragmentDefinitionVisitor
 {
 public:
-	FragmentDefinitionVisitor(const response::Value& variables);
-
 	FragmentMap getFragments();
 
 	void visit(const peg::ast_node& fragmentDefinition);
 
 private:
-	const response::Value& _variables;
-
 	FragmentMap _fragments;
 };
 
-FragmentDefinitionVisitor::FragmentDefinitionVisitor(const response::Value& variables)
-	: _variables(variables)
-{
-}
-
 FragmentMap FragmentDefinitionVisitor::getFragments()
 {
 	FragmentMap result(std::move(_fragments));
@@ -1286,7 +1277,7 @@ FragmentMap FragmentDefinitionVisitor::getFragments()
 void FragmentDefinitionVisitor::visit(const peg::ast_node& fragmentDefinition)
 {
 	_fragments.emplace(fragmentDefinition.children.front()->string_view(),
-		Fragment(fragmentDefinition, _variables));
+		Fragment(fragmentDefinition));
 }
 
 // Filter the variables down to the ones defined in this operation, and fill in the default values.
@@ -1737,7 +1728,7 @@ std::future<response::Value> Request::resolve(std::launch launch,
 {
 	try
 	{
-		FragmentDefinitionVisitor fragmentVisitor(variables);
+		FragmentDefinitionVisitor fragmentVisitor;
 
 		peg::for_each_child<peg::fragment_definition>(*query.root,
 			[&fragmentVisitor](const peg::ast_node& child) {
@@ -1885,7 +1876,7 @@ std::future<response::Value> Request::resolveUnvalidated(std::launch launch,
 {
 	try
 	{
-		FragmentDefinitionVisitor fragmentVisitor(variables);
+		FragmentDefinitionVisitor fragmentVisitor;
 
 		peg::for_each_child<peg::fragment_definition>(root,
 			[&fragmentVisitor](const peg::ast_node& child) {
@@ -1986,7 +1977,7 @@ SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCall
 		throw schema_exception { std::move(errors) };
 	}
 
-	FragmentDefinitionVisitor fragmentVisitor(params.variables);
+	FragmentDefinitionVisitor fragmentVisitor;
 
 	peg::for_each_child<peg::fragment_definition>(*params.query.root,
 		[&fragmentVisitor](const peg::ast_node& child) {
-- 
2.43.0


From 79ace91fcd61c2cdc9155642934d443f5adc2b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:54 +0000
Subject: [PATCH 33/34] fix: clientgen generated code which did not compile for
 requests containing the delimiter of the raw string literal

---
 src/ClientGenerator.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index ce35132..362b95b 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -712,20 +712,31 @@ Response parseResponse(response::Value&& response)
 
 void Generator::outputGetRequestImplementation(std::ostream& sourceFile) const noexcept
 {
+	const std::string requestText { _requestLoader.getRequestText() };
+
+	// The text of the request must not end the raw string literal.
+	std::string delimiter { "gql" };
+
+	for (size_t suffix = 1; requestText.find(")" + delimiter + "\"") != std::string::npos; ++suffix)
+	{
+		delimiter = "gql" + std::to_string(suffix);
+	}
+
 	sourceFile << R"cpp(
 const std::string& GetRequestText() noexcept
 {
-	static const auto s_request = R"gql(
+	static const auto s_request = R")cpp"
+			   << delimiter << R"cpp((
 )cpp";
 
-	std::istringstream request { std::string { _requestLoader.getRequestText() } };
+	std::istringstream request { requestText };
 
 	for (std::string line; std::getline(request, line);)
 	{
 		sourceFile << R"cpp(		)cpp" << line << std::endl;
 	}
 
-	sourceFile << R"cpp(	)gql"s;
+	sourceFile << R"cpp(	))cpp" << delimiter << R"cpp("s;
 
 	return s_request;
 }
-- 
2.43.0


From 74ad3dac363d259446d21db24db883d504d1217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:11 +0000
Subject: [PATCH 34/34] fix: unsubscribing copied the name of the field, so
 that a failed asynchronous subscribe stayed registered if memory ran out
 again

---
 include/graphqlservice/internal/SortedMap.h | 12 +++++++++---
 src/GraphQLService.cpp                      |  4 +++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/graphqlservice/internal/SortedMap.h b/include/graphqlservice/internal/SortedMap.h
index e247037..1fe7348 100644
--- a/include/graphqlservice/internal/SortedMap.h
+++ b/include/graphqlservice/internal/SortedMap.h
@@ -173,10 +173,8 @@ public:
 		return _data.emplace(itrEnd, std::move(key), V {})->second;
 	}
 
-	template <typename KeyArg>
-	V& at(KeyArg&& keyArg)
+	V& at(const K& key)
 	{
-		const K key { std::forward<KeyArg>(keyArg) };
 		const auto [itr, itrEnd] = std::equal_range(_data.begin(),
 			_data.end(),
 			key,
@@ -192,6 +190,14 @@ public:
 		return itr->second;
 	}
 
+	template <typename KeyArg>
+	V& at(KeyArg&& keyArg)
+	{
+		const K key { std::forward<KeyArg>(keyArg) };
+
+		return at(key);
+	}
+
 private:
 	struct sorted_map_key
 	{
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 24777e5..4a46f35 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2116,7 +2116,9 @@ void Request::unsubscribe(SubscriptionKey key)
 
 	registration = itrSubscription->second;
 
-	const auto listenerKey = std::string_view { registration->field };
+	// Don't copy the name of the field to look it up: removing a subscription must not fail because
+	// memory ran out.
+	const SubscriptionName& listenerKey = registration->field;
 	auto& listener = _listeners.at(listenerKey);
 
 	listener.erase(key);
-- 
2.43.0

