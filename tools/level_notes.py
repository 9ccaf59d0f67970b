LEVEL = {}
A = ' Assumes the extraction (clang AST to C, tools/cxx2c.py), CBMC and its back ends, LP64 wrapping arithmetic.'
NOTES['C01'] = 'Proof over every value and every numeral of up to 20 digits (fixed-point scanning: up to 11 digits in the thorough tier, one digit before the point in the quick one); loops unrolled past the operand width with unwinding assertions. libc atoi/snprintf by contract; floats not covered.' + A
NOTES['C02'] = 'Proof over every day number with a year of up to six digits, every second, every millisecond count of those dates, every field value of scanned texts; gmtime_r by contract.' + A
NOTES['C05'] = 'Proof over all triples of types, all lengths up to 2^29, all values of every fixed size type; text comparison bounded (4 bytes, libc strcmp). Conversion of text inside XBT_Equal and type detection by contract.' + A
NOTES['C09'] = 'Proof over every pool up to 2 GB, every fill level and every request (fill observed as the memset call); the registry of writers bounded (5 writers). ftruncate by contract.' + A
NOTES['C10'] = 'Proof link by link for any set of circular lists (an operation touches only named elements and their neighbours; arena with one element more than that); order of a whole joined list and finding by name bounded (5 elements).' + A
LEVEL['C14'] = 'bounded'
NOTES['C14'] = 'Every array of up to 6 elements (9 in the thorough tier), every key pattern, several element sizes; loops unrolled completely for these lengths. Seeded search on the real code up to 40 elements.' + A
NOTES['C15'] = 'Proof: compression equal to FIPS 180-4 for every state and block; buffering by loop invariant for every length up to 2^48 bytes per call and every split; padding for every message length. file_getsha1 bounded (9000 bytes). Inline rotate instructions replaced by their definition.' + A
LEVEL['C13'] = 'bounded'
NOTES['C13'] = 'String and primitive scanners: proof by loop invariants for texts of every length up to 2^31-2 (exact result against a reference up to 8 characters). The parser: loop invariant for texts of every length with up to 2 tokens; exact result against a reference, and counting equals producing, up to 3 (6 for counting) characters; seeded search on the real code with texts of up to 10 characters.' + A
LEVEL['C12'] = 'bounded'
NOTES['C12'] = 'Each operation of the registry on every table of up to 3 names of up to 5 characters (arbitrary characters and types; with and without index, with and without data behind the table, room or no room in the pool); seeded histories of up to 330 registrations on the real code. Not a proof for longer tables: the packed records are reached only by walking over all names before. Ids registered out of order and Commit/Write are not covered.' + A
