#!/bin/bash
# Regenerates the generated sources committed in /repo with the working tree's generators.
set -e
R=${SIM_REPO:-/repo}
read SG CG < <(cd /verif/tools && python3 -c "import build; build.lock(); print(*build.generators())")
S=$R/samples
t() { (cd $S/$1 && shift && "$@"); }
t unified $SG --schema=../schema.today.graphql --prefix=Today --namespace=today
t unified_nointrospection $SG --schema=../schema.today.graphql --prefix=Today --namespace=today --no-introspection
t validation $SG --schema=../schema.validation.graphql --prefix=Validation --namespace=validation
t separate $SG --schema=../schema.today.graphql --prefix=Today --namespace=today --separate-files > /tmp/sf; cp /tmp/sf $S/separate/today_schema_files
t separate_nointrospection $SG --schema=../schema.today.graphql --prefix=Today --namespace=today --no-introspection --separate-files > /tmp/sf; cp /tmp/sf $S/separate_nointrospection/today_schema_files
rm -f /tmp/sf
for x in query:Query mutate:Mutate subscribe:Subscribe client.benchmark:Benchmark; do
  p=${x#*:}
  t client $CG --schema=../schema.today.graphql --request=../${x%:*}.today.graphql --prefix=$p --namespace=$(echo $p | tr A-Z a-z)
done
(cd $R/src && $SG --introspection && mv IntrospectionSchema.h ../include/graphqlservice/introspection/)
git -C $R status --short
