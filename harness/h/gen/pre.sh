# Generates the code that is checked, with the generators of the tree under test.
cd "$(dirname "$(readlink -f "$0")")/../.." && exec go run ./genmake
