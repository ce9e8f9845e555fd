# Source of properties.jsonl (kept as code so that statements stay in one place).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p('C01', 'A requirement matches exactly the packages its selectors describe',
  'A requirement string matches a package exactly when the name is equal, the package platform is compatible with the requirement platform (each of os, release and architecture equal, or "any" on either side), and the package version satisfies every selector written in the string (==, !=, <, <=, >, >=) under the version order. Redundant or repeated selectors, their order, and blanks around names, operators, versions and commas never change what matches. A well-formed requirement is refused only when its selectors contradict each other or when == is combined with a selector other than != (blanks here are spaces).',
  ['inputs'], 'every requirement string of up to three selectors and every package version, up to the stated lengths',
  'tests/test_requirements.py checks some twenty fixed selector combinations on versions 1, 2 and 3; the simplifier has several hundred operator/ordering cases.',
  ['ipkg/requirements.py', 'ipkg/platforms.py'],
  [('selector simplification', 'ipkg/requirements.py remove_useless_version_selectors'), ('matching', 'ipkg/requirements.py Requirement.satisfied_by'), ('platform wildcard equality', 'ipkg/platforms.py Platform.__eq__')],
  ['Requirement(s).satisfied_by(package or dict)'])
p('C02', 'Merging two requirements matches exactly their intersection',
  'Adding two requirements for the same package and compatible platforms gives a requirement that matches exactly the packages both match, and keeps the extras of both. The merge is refused only when the two contradict each other, when one asks for an exact version and the other gives a range, or when names differ or platforms are not compatible.',
  ['inputs'], 'all pairs of requirements with up to two selectors each and every version, up to the stated lengths',
  'The suite merges one pair of requirements. The dependency solver merges on every node it adds.',
  ['ipkg/requirements.py', 'ipkg/dependencies.py'],
  [('merge', 'ipkg/requirements.py Requirement.__add__'), ('use', 'ipkg/dependencies.py SolverRequirement.merge')],
  ['Requirement(a) + Requirement(b)'])
p('C03', 'A malformed requirement is refused with an ipkg error, never a crash',
  'For any string whatsoever, reading it as a requirement, a platform or a package spec either succeeds or raises an ipkg error (invalid requirement, platform or package). Comparing a requirement, a platform or a package with any string never raises anything else than such an error, and an invalid string never compares equal.',
  ['inputs'], 'every string up to the stated length over the alphabet that the grammars distinguish',
  'Two malformed strings are tested; strings come from command lines, formulas and package metadata written by others.',
  ['ipkg/requirements.py', 'ipkg/platforms.py', 'ipkg/utils.py', 'ipkg/mixins.py', 'ipkg/regex.py'],
  [('grammar', 'ipkg/requirements.py RE_REQUIREMENT, RE_VERSION_REQUIREMENT'), ('errors', 'ipkg/exceptions.py IpkgException')],
  ['Requirement(s)', 'Platform.parse(s)', 'parse_package_spec(s)'])
p('C04', 'Requirement equality, hash and text form agree',
  'The text form of a requirement can be read back as a requirement, and the result is equal to it, has the same hash and matches the same packages. Equal requirements have equal hashes and match the same packages, != is the negation of ==, and comparing with a string is comparing with the requirement it spells.',
  ['inputs'], 'every requirement with up to two selectors and extras, and every pair of such requirements, up to the stated lengths',
  'One equality and one hash example are tested; requirements are used as dictionary keys by the solver and merged through their text.',
  ['ipkg/requirements.py'],
  [('text form', 'ipkg/requirements.py Requirement.__str__'), ('equality', 'ipkg/requirements.py Requirement.__eq__'), ('hash', 'ipkg/requirements.py Requirement.__hash__')],
  ['str(Requirement(s))', 'Requirement(a) == Requirement(b)', 'hash(Requirement(s))'])
p('C05', 'Version sorting and newest-version selection follow the version order',
  'Sorting versions returns a permutation of the input in version order (dotted numbers compare as numbers, pre-releases come before the release), reversed on request and honouring a given parser. The most recent version of any non-empty collection is one that no other member exceeds under the same parser, and picking the newest of several packages or solver nodes returns one of them with that version.',
  ['inputs'], 'all lists of up to three versions of the stated lengths, any order, default or custom parser',
  'Two fixed four-element lists are tested.',
  ['ipkg/versions.py', 'ipkg/dependencies.py'],
  [('sort', 'ipkg/versions.py sorted'), ('newest', 'ipkg/versions.py most_recent'), ('selector', 'ipkg/dependencies.py select_most_recent_version')],
  ['versions.sorted', 'versions.most_recent', 'select_most_recent_version'])
p('C06', 'Package comparison obeys the laws of equality and order',
  'Two packages are equal exactly when name, version and revision are equal (revisions compared as text), != is its negation, and < and > hold exactly when names are equal and the (version, revision) pair is older or newer, revisions deciding only when versions are the same text. <= is (< or ==) and >= is (> or ==); < is irreflexive, asymmetric and transitive. Comparing with a package spec string compares only the parts the spec gives: an absent version or revision matches anything and orders nothing.',
  ['inputs'], 'all pairs and triples of names, versions and revisions of the stated lengths, revisions as int or text, and specs with any subset of the parts',
  'Seventeen fixed comparisons on versions 1.0/2.0 are tested.',
  ['ipkg/mixins.py', 'ipkg/utils.py'],
  [('comparison mixin', 'ipkg/mixins.py NameVersionRevisionComparable')],
  ['Formula and package objects compared with each other and with strings'])
p('C07', 'A package spec names the package it was made from',
  'For any package whose name, version and revision are made of the characters specs allow, making its spec and parsing it back gives the same name, version and revision; specs with absent version or revision keep exactly the parts given. The spec of a package equals that package, and of no package that differs in a part the spec gives. Package file names are made of the same name, version, revision and platform and are recognised again, part by part, when the version has no dash.',
  ['inputs'], 'all names, versions and revisions up to the stated lengths, as objects or dictionaries',
  'Four fixed specs are built in tests and none is parsed back.',
  ['ipkg/utils.py', 'ipkg/regex.py', 'ipkg/packages.py', 'ipkg/mixins.py'],
  [('make', 'ipkg/utils.py make_package_spec'), ('parse', 'ipkg/utils.py parse_package_spec'), ('grammar', 'ipkg/regex.py PACKAGE_SPEC'), ('file name', 'ipkg/packages.py make_filename')],
  ['make_package_spec', 'parse_package_spec', 'make_filename'])
p('C08', 'Platforms compare field by field with "any" as a wildcard',
  'Two platforms are equal exactly when each of os, release and architecture is equal or "any" on at least one side; equality is symmetric, != is its negation, and comparing with a string is comparing with the platform it spells (case and surrounding blanks ignored). The text form of a platform whose fields are lower-case and free of dashes and blanks parses back to the same three fields; text that has not exactly three dash-separated fields is refused, except "any" which means any-any-any, and equals no platform. The current platform is one of those the package was told of by the operating system: os name, release, machine.',
  ['inputs'], 'all triples of field strings up to the stated length',
  'About ten fixed platform strings are tested.',
  ['ipkg/platforms.py'],
  [('parse', 'ipkg/platforms.py Platform.parse'), ('equality', 'ipkg/platforms.py Platform.__eq__'), ('current', 'ipkg/platforms.py Platform.current')],
  ['Platform.parse', 'Platform ==', 'Platform.current'])
p('C09', 'A repository lookup returns all matching entries, newest first',
  'Looking a requirement up in a repository returns exactly the entries that match it, each once, newest version first and newest revision first among equal versions. Indexing the repository returns the first of them, or raises the documented requirement-not-found error when none matches. Package entries found this way refer to the file <base>/<name>/<name>-<version>-<revision>-<platform>.ipkg.',
  ['inputs', 'configurations'], 'all repositories of up to three entries with symbolic versions, revisions and platforms, and all requirements with up to two selectors',
  'Lookups are tested on a repository with one version of each package.',
  ['ipkg/repositories.py', 'ipkg/versions.py'],
  [('find', 'ipkg/repositories.py BaseRepository.find'), ('newest', 'ipkg/repositories.py BaseRepository.__getitem__'), ('sort key', 'ipkg/versions.py extract')],
  ['repository.find(r)', 'repository[r]'])
p('C10', 'The repository index describes the package files that are there',
  'After updating its metadata, a local repository lists every package file found in its package directories exactly once, with the metadata stored inside the file and the SHA-256 of the file, and nothing else; files that are not packages are not listed and other directories entries do not make it fail. Adding a package records it with its checksum, an earlier entry of the same package file being replaced. The saved index read again gives the same lookups.',
  ['inputs', 'histories'], 'repositories with up to two package directories and three files, and short histories of add, build and update',
  'One repository with one package is indexed in tests.',
  ['ipkg/repositories.py', 'ipkg/packages.py'],
  [('update', 'ipkg/repositories.py LocalPackageRepository.update_metadata'), ('add', 'ipkg/repositories.py LocalPackageRepository.add')],
  ['repository.json', 'iteration and find on the repository'])
p('C11', 'Building a formula repository respects dependencies and terminates',
  'Building all formulas attempts every formula that is not already packaged in the repository exactly once, after all of its dependencies that are themselves waiting to be built (unless they lead to a loop), whatever order the formulas come in. It always terminates, even when formulas depend on each other in a loop, and one failing build does not prevent the others. It returns the files of the packages that were built.',
  ['inputs', 'configurations', 'fault_sequences'], 'all dependency relations between up to three formulas, any subset already packaged, any subset failing',
  'The only test of it is commented out.',
  ['ipkg/repositories.py'],
  [('build loop', 'ipkg/repositories.py LocalPackageRepository.build_formulas')],
  ['LocalPackageRepository.build_formulas'])
p('C12', 'A saved dictionary file reads back the same',
  'Whatever JSON-like content is put in a dictionary file, saving it and opening the file again gives an equal dictionary; clearing it empties it in memory and on disk, also when it had never been saved. A missing or empty file reads as empty, and any other content that is not a JSON object is refused with the documented error.',
  ['inputs', 'histories'], 'dictionaries with symbolic keys and values up to the stated sizes, arbitrary short file contents, short histories of set, save, clear and reopen',
  'One key is saved and reloaded in tests.',
  ['ipkg/utils.py'],
  [('load', 'ipkg/utils.py DictFile.reload'), ('save', 'ipkg/utils.py DictFile.save'), ('clear', 'ipkg/utils.py DictFile.clear')],
  ['DictFile'])
p('C13', 'A crash or failed write never destroys saved metadata',
  'If the process dies, or the disk refuses an operation, at any point while an environment or repository metadata file is being saved, the file afterwards reads back as either the complete old content or the complete new content. The record of installed packages is never lost or left unreadable by an interrupted save.',
  ['crash_points', 'fault_sequences'], 'every file-system operation of a save as crash point (with any part of the pending data written) or as failing operation',
  'No test interrupts a save.',
  ['ipkg/utils.py', 'ipkg/environments.py'],
  [('save', 'ipkg/utils.py DictFile.save'), ('users', 'ipkg/environments.py Environment.install, uninstall, set_config')],
  ['DictFile.save', 'Environment metadata after a crash'])
p('C14', 'Install adds and uninstall removes exactly the files of the package',
  'After installing a package, every file it lists is in the environment with the content and link target it was packaged with (prefix rewriting apart) and the package is listed as installed, also after reopening the environment; installing another version replaces the old one, removing the files that only the old version had. Uninstalling a package removes every one of its files and its record and leaves every other file of the environment untouched. Uninstalling what is not installed raises the documented error and changes nothing; installing the same version and revision again changes nothing.',
  ['inputs', 'histories'], 'packages with up to three files with symbolic names in several directories, symbolic versions, and histories of up to three operations',
  'One package with one file at the root is installed and uninstalled in tests.',
  ['ipkg/environments.py', 'ipkg/packages.py'],
  [('install', 'ipkg/environments.py Environment.install'), ('uninstall', 'ipkg/environments.py Environment.uninstall'), ('extraction', 'ipkg/packages.py PackageFile.extract')],
  ['files under the prefix', 'Environment.packages', '.ipkg.meta'])
p('C15', 'Installing or removing a package never touches files outside its prefix',
  'Whatever file names, links and metadata a package contains, installing it and uninstalling it creates, changes or removes nothing outside the environment prefix, and never overwrites the environment\'s own metadata file with a packaged file. A package that would need to is refused with an ipkg error.',
  ['inputs'], 'packages with up to two members whose names and link targets are arbitrary strings of the stated length over "/", "." and letters, or absolute paths',
  'No hostile package is tested.',
  ['ipkg/packages.py', 'ipkg/environments.py'],
  [('extraction', 'ipkg/packages.py PackageFile.extract'), ('removal', 'ipkg/environments.py Environment.uninstall')],
  ['the file system outside the prefix'])
p('C16', 'Installing a package first installs what it depends on',
  'When installing a package succeeds, each of its dependencies and, in turn, of theirs, is satisfied by an installed package, provided no two of them ask for different versions of the same name; every dependency was complete and recorded before the package that needs it was extracted. A dependency that an installed package already satisfies is left alone, a missing one is taken from the repository in its newest satisfying version. If a dependency cannot be found, or dependencies form a loop, installation fails with an ipkg error and the package is not recorded as installed.',
  ['inputs', 'configurations'], 'all dependency relations between three packages with symbolic version requirements, any of them installed beforehand',
  'The test of dependency installation is commented out.',
  ['ipkg/environments.py', 'ipkg/repositories.py'],
  [('dependency installation', 'ipkg/environments.py Environment.install')],
  ['Environment.install', 'Environment.packages'])
p('C17', 'An interrupted install or uninstall can be completed by repeating it',
  'If installing or uninstalling a package is interrupted by a crash or a failing file operation at any point, the environment can still be opened, every other package keeps its record and its files, and a package is recorded as installed only if all of its files were put in place. Repeating the interrupted operation then leads to the same state as if it had succeeded at once.',
  ['crash_points', 'fault_sequences', 'histories'], 'every file-system operation of install, upgrade and uninstall as crash or failure point, packages with up to two files',
  'No test injects a fault.',
  ['ipkg/environments.py', 'ipkg/packages.py', 'ipkg/utils.py'],
  [('order of effects', 'ipkg/environments.py Environment.install, uninstall')],
  ['environment files and metadata after restart'])
p('C18', 'An environment puts its own directories first and keeps the rest',
  'The variables of an environment start from the given defaults: PATH begins with its sbin and bin directories, the library, include, manual and pkg-config search paths begin with its own directory, each followed by the previous entries in their order and without a second copy of its own; every variable ipkg does not manage keeps its value. IPKG_ENVIRONMENT is the prefix and TMPDIR its temporary directory. Commands run in the environment receive exactly these variables, and the printed form lists each of them once as NAME=value (with "export " in front when asked).',
  ['inputs', 'configurations'], 'arbitrary path lists of up to three symbolic entries and arbitrary other variables, present or absent; linux and os x',
  'Tests look at one variable.',
  ['ipkg/environments.py', 'ipkg/utils.py'],
  [('composition', 'ipkg/environments.py EnvironmentVariables.__init__'), ('execution', 'ipkg/environments.py Environment.execute')],
  ['EnvironmentVariables.as_string_dict / as_string', 'Environment.execute'])
p('C19', 'Path list variables keep order and never duplicate an entry',
  'Inserting an entry in a path list variable puts it at the requested position (the front by default), appending puts it at the end, removing takes it away, and in each case all other entries keep their relative order. An inserted or appended entry occurs exactly once afterwards, a removed one not at all; a list without the entry is unchanged by removing it. Reading the text form back gives the same list, and values that are not text are refused.',
  ['inputs', 'histories'], 'lists of up to four symbolic entries (duplicates included), any entry, any index, sequences of two operations',
  'Five fixed operations on distinct entries are tested.',
  ['ipkg/environments.py'],
  [('list operations', 'ipkg/environments.py ListVariable')],
  ['str(PathListVariable)'])
p('C20', 'Variables set by packages are expanded, kept and restored',
  'Variables a package declares become variables of the environment, with %(name)s replaced by the environment directory of that name; text that is not a valid such template is kept as it is and never makes installing the package or opening the environment fail. Reopening the environment gives the same values for every installed package, and no longer those of uninstalled ones.',
  ['inputs', 'histories'], 'arbitrary short values over the characters "%()s" and letters, and every directory name',
  'One expansion is tested.',
  ['ipkg/environments.py'],
  [('expansion', 'ipkg/environments.py EnvironmentVariables.add'), ('restore', 'ipkg/environments.py Environment.__init__')],
  ['EnvironmentVariables.add', 'Environment(prefix).variables'])
p('C21', 'Prefix rewriting changes only the build prefix on the line it targets',
  'On installation into another prefix, in a script (a file that starts with "#!") only the first line changes, in a pkg-config file only the first line starting with "prefix=", in a libtool archive only the first line starting with "libdir=", and there only the build prefix is replaced by the new prefix; all other bytes stay the same. Files of any other kind, files outside the bin, sbin and lib* directories and symbolic links are not modified, and a file that lacks the targeted line is left as it is without failing.',
  ['inputs'], 'file contents of up to the stated number of symbolic characters and lines, in every kind of location',
  'Nothing tests prefix rewriting.',
  ['ipkg/prefix_rewriters.py', 'ipkg/environments.py', 'ipkg/regex.py'],
  [('rewriters', 'ipkg/prefix_rewriters.py'), ('file selection', 'ipkg/environments.py Environment.install'), ('patterns', 'ipkg/regex.py PKGCONFIG_FILE, LIBTOOL_FILE')],
  ['files under the prefix after install'])
p('C22', 'Rewriting a Mach-O binary redirects its libraries and keeps its mode',
  'For a little-endian Mach-O file of 32 or 64 bits, every library it references under the build prefix is redirected to the same path under the new prefix, no other library is touched, and its identifier is set to its own path, in one command on that file. Whatever the file mode was before and whether or not the command fails, the mode is the same afterwards, and the file was writable while the command ran.',
  ['inputs', 'fault_sequences'], 'any permission bits, up to three symbolic library paths, tool success or failure',
  'Nothing tests it; it needs OS X tools.',
  ['ipkg/prefix_rewriters.py'],
  [('rewriter', 'ipkg/prefix_rewriters.py rewrite_osx_bin, get_osx_bin_libs')],
  ['commands run', 'file mode'])
p('C23', 'A built package contains exactly the files the build installed',
  'The package made from a formula contains exactly the files and links that its install step added to the build prefix, under their path relative to the prefix and with their content, plus the metadata; files that were there before are not included. Its metadata lists those same paths and the name, version, revision (as text), platform, dependencies, variables, homepage and build prefix of the formula, and its file name is made of name, version, revision and platform.',
  ['inputs', 'configurations'], 'install steps adding up to three files or links in symbolic places, prefixes whose text occurs again inside installed paths, files existing before',
  'One formula installing one file is built in tests and only the name is compared.',
  ['ipkg/build.py', 'ipkg/packages.py'],
  [('file discovery', 'ipkg/build.py find_files'), ('packaging', 'ipkg/build.py Formula.build / __create_package')],
  ['the package file written by Formula.build'])
p('C24', 'Building in an environment leaves it as it was',
  'After a successful build in an existing environment, whose install step only adds files and whose dependencies replace no installed package, the files in it and the packages installed in it are the same as before: what the build installed is gone, build dependencies that were installed for it are uninstalled, and packages that were installed before, dependencies or not, are still there. The temporary build directory is removed unless the caller asked to keep it.',
  ['inputs', 'configurations', 'histories'], 'any subset of the dependencies (plain or with version selectors) installed beforehand, any files added by the build',
  'Builds are tested only in a fresh temporary environment without dependencies.',
  ['ipkg/build.py', 'ipkg/environments.py'],
  [('dependency handling and cleanup', 'ipkg/build.py Formula.build')],
  ['environment files and packages after build'])
p('C25', 'Building and installing a package reproduces the built files',
  'Installing a package built from a formula into another environment puts there every file and link the build installed, under the same relative path with the same content (prefix rewriting apart), and no other file. The installed record has the metadata of the formula, and a lookup in the repository the package was added to finds it.',
  ['inputs', 'histories'], 'install steps adding up to three files or links with symbolic names and contents',
  'Build and install are never combined in tests.',
  ['ipkg/build.py', 'ipkg/packages.py', 'ipkg/environments.py', 'ipkg/repositories.py'],
  [('packaging', 'ipkg/build.py Formula.build'), ('installation', 'ipkg/environments.py Environment.install')],
  ['files of the target environment'])
p('C26', 'A file with a declared checksum is only used if its content matches',
  'Opening a source file or patch declared with a checksum succeeds only if the digest of its whole content under the declared algorithm equals the declared value, and raises the invalid checksum error otherwise; the strongest declared algorithm is used. What is read afterwards is exactly the verified content from the start. Without a declared checksum the file opens unchecked.',
  ['inputs'], 'any content and any expected content up to the stated length, each of the six algorithms and combinations of them, local and remote files',
  'Two fixed checksums of a local file are tested, for two algorithms.',
  ['ipkg/build.py', 'ipkg/files/backends/__init__.py', 'ipkg/files/__init__.py'],
  [('declaration', 'ipkg/build.py File'), ('verification', 'ipkg/files/backends/__init__.py BaseFile.verify_checksum')],
  ['File(url, sha256=...).open()'])
p('C27', 'Remote files come whole from the server or from a faithful cache',
  'Reading a remote file gives exactly the content the server sent in a successful response, however it is split in pieces, downloads at most once per opened file, and when a cache directory is configured stores it so that later openings read the same content without a request. Error responses and failed transfers raise a file error and are never cached; distinct addresses never share an entry; a failure or crash while writing the cache never makes a later read return partial content or fail.',
  ['inputs', 'fault_sequences', 'crash_points', 'histories'], 'contents of up to the stated length in up to three pieces, any status, any failing or crashing cache operation, two addresses',
  'There are no tests of remote files or of the cache.',
  ['ipkg/files/backends/http.py', 'ipkg/files/cache.py'],
  [('download', 'ipkg/files/backends/http.py HttpFile'), ('cache', 'ipkg/files/cache.py')],
  ['HttpFile.read', 'files in the cache directory'])
p('C28', 'Opening an address reaches the backend and file it names',
  'Opening an address uses the backend registered for its scheme, the local file backend when it has none, and refuses unknown schemes with the documented error. A plain path (one with no colon before its first slash) or file:// address opens exactly that file, whatever characters the name contains, reads its content from the start and honours seek and tell; a path that is not a file is refused with the documented error.',
  ['inputs'], 'all file names and schemes of the stated length over the characters address syntax distinguishes',
  'Only plain fixed paths are opened in tests.',
  ['ipkg/files/__init__.py', 'ipkg/files/backends/filesystem.py'],
  [('dispatch', 'ipkg/files/__init__.py vopen'), ('local file', 'ipkg/files/backends/filesystem.py LocalFile')],
  ['vopen(address).read()'])
p('C29', 'Unpacking sources yields one directory inside the target',
  'Unpacking a source archive succeeds only if everything in it lies under a single top-level entry, and then returns the path of that entry inside the target directory with all its members extracted. Archives that are empty or of an unknown type, that have several top-level entries, or that have members outside the target directory or placed through links of the archive are refused with an ipkg error before anything is written.',
  ['inputs'], 'archives of every supported type with up to three members with symbolic names',
  'Four well-formed archives of one file are tested.',
  ['ipkg/utils.py'],
  [('unpacking', 'ipkg/utils.py unarchive')],
  ['unarchive(fileobj, target)'])
p('C30', 'Running a command reports its outcome truthfully',
  'Running a command succeeds exactly when the program could be started and exited with code 0, and then returns what it wrote on the captured streams; in every other case the execution-failed error is raised, carrying the command and the reason. The program receives exactly the given arguments, input data, working directory and variables. Searching a command returns the first file of that name along PATH, or nothing when there is none.',
  ['inputs', 'fault_sequences'], 'any exit code, any start failure, command given as text or list with symbolic words, any arrangement of up to three PATH directories',
  'Six fixed shell commands are run in tests.',
  ['ipkg/utils.py', 'ipkg/environments.py'],
  [('execute', 'ipkg/utils.py execute'), ('which', 'ipkg/utils.py which')],
  ['execute(...)', 'which(name)'])
p('C31', 'Any order the dependency solver returns is a valid install order',
  'When the solver returns an order for a target, the target is its last element, no package name occurs twice, and each listed package comes after packages of the list (or installed ones) that satisfy each of its requirements. The version chosen for each name that is not installed is the newest among those known to the solver that satisfy every requirement on that name. If a needed requirement has no satisfying package the solver raises an ipkg error instead.',
  ['inputs', 'configurations', 'schedules'], 'all dependency relations between three names with up to two versions each, symbolic requirement operators and versions, every iteration order of the sets used',
  'Three fixed graphs are solved in tests, whose results depend on hash order.',
  ['ipkg/dependencies.py'],
  [('graph construction', 'ipkg/dependencies.py Solver.from_obj, Solver.add'), ('selection', 'ipkg/dependencies.py Solver.find_best_dependencies'), ('ordering', 'ipkg/dependencies.py Solver.solve')],
  ['Solver.from_obj(...).solve(target)'])
p('C32', 'Dependency loops are refused, and loop-free dependencies are not',
  'If the packages the target needs depend on each other in a loop, solving raises an ipkg error and terminates, whatever the shape of the loop and the order the packages are visited. If each name has a single version and the dependencies are free of loops and satisfiable (and no name is asked for both exactly and by a range), solving gives the target and all it needs, installed packages and what they need apart.',
  ['inputs', 'configurations', 'schedules'], 'all dependency relations between up to four single-version packages, every iteration order of the sets used',
  'One three-package loop is tested.',
  ['ipkg/dependencies.py'],
  [('loop detection', 'ipkg/dependencies.py Solver.solve')],
  ['Solver.from_obj(...).solve(target)'])
p('C33', 'Command line failures are reported and never look like success',
  'Each command acts on the environment given on the command line, or on the current one when none is given, and fails with an error when there is none. Every ipkg error raised by a command ends the program with a message and a non-zero exit status instead of a traceback, and a command that succeeds does not exit with an error. Options reach the operation they belong to, and mkenv follows its requirements in the order they are given.',
  ['inputs', 'configurations', 'fault_sequences'], 'every command, with or without its options, the operation succeeding or raising any ipkg error',
  'The command line has no tests.',
  ['ipkg/cli.py', 'ipkg/environments.py'],
  [('dispatch', 'ipkg/cli.py Ipkg.__call__'), ('current environment', 'ipkg/environments.py current')],
  ['exit status', 'operation invoked'])
p('C34', 'A formula runs exactly the commands it asks for',
  'A run_<tool> call of a formula runs exactly <tool> followed by the arguments of that call, in the sources directory unless another is given, whatever was run before; the default build runs ./configure with the configured arguments in which %(directory)s stands for the directories of the build environment, then make, then make install, and stops at the first that fails. A formula that lacks a name, version, revision or sources is refused when created.',
  ['inputs', 'histories', 'fault_sequences'], 'any tool name and arguments (text or list) of the stated length, two successive calls, any command failing, any subset of the mandatory attributes missing',
  'Only formulas that override install and run one copy command are tested.',
  ['ipkg/build.py'],
  [('command wrappers', 'ipkg/build.py Formula.__getattr__, run_command, run_configure, install')],
  ['commands given to the environment'])
p('C35', 'A repository works the same wherever it is',
  'A package repository opened through a file:// or http:// address gives the same packages, in the same order, as the directory it is served from, and installing from it puts the same files and record in the environment, dependencies and upgrades included. Its index and packages are read again each time they are opened (when no cache is configured), and only what is needed is downloaded. When the server does not give the index or a package, an ipkg error is raised, the package is not recorded as installed, and installing it again works once the server answers.',
  ['inputs', 'configurations', 'fault_sequences', 'histories'], 'small repositories with symbolic contents and versions, three kinds of addresses, any file refused or failing',
  'Tests only use repositories of the local file system.',
  ['ipkg/repositories.py', 'ipkg/utils.py', 'ipkg/packages.py', 'ipkg/files/__init__.py', 'ipkg/files/backends/http.py'],
  [('index', 'ipkg/utils.py DictFile.reload'), ('package files', 'ipkg/repositories.py PackageRepository, ipkg/packages.py PackageFile')],
  ['PackageRepository(address)', 'Environment.install(name, repository)'])
p('C36', 'A formula file gives the formula it defines, and only that',
  'Loading a formula file gives the one Formula class the file defines, whatever the file is called and whatever was loaded before, and a loaded formula keeps working whatever is loaded afterwards. A file that is missing, fails to import something, or defines no or several formulas (names that begin with an underscore apart) is refused with an ipkg error. A formula repository holds exactly the formulas of the files called <name>-<version>.py in its directories, each once, under the name the formula has.',
  ['inputs', 'histories', 'configurations'], 'file names of the stated length, two files loaded one after the other with seven kinds of contents, repositories of two files and other entries',
  'Tests load formulas whose files all have different names, and that all define one formula.',
  ['ipkg/build.py', 'ipkg/repositories.py', 'ipkg/regex.py'],
  [('loading', 'ipkg/build.py Formula.from_file'), ('repository', 'ipkg/repositories.py FormulaRepository'), ('file names', 'ipkg/regex.py FORMULA_FILE')],
  ['Formula.from_file(path)', 'FormulaRepository(base)'])
p('C37', 'An environment manages its own directories and settings only',
  'Creating an environment makes its prefix and its bin, sbin, include, lib, lib/pkgconfig, share, share/man and tmp directories, and nothing else; it is refused with the documented error, which names the directory, when there is already something at the prefix or when a directory cannot be made, and completing one that exists only adds what lacks. A temporary directory made by an environment is new, empty and in its tmp directory; cleaning up empties the tmp directory and removes nothing else, links to elsewhere included. A setting reads back as it was last set, also after reopening the environment and after installing and uninstalling packages, and one that was never set reads as nothing.',
  ['inputs', 'histories', 'fault_sequences'], 'every kind of entry at the prefix and its parent, a failure at any directory, any subset of directories already there, symbolic names, settings and values, three temporary directories',
  'Tests create environments in fresh directories, and do not make temporary directories or settings.',
  ['ipkg/environments.py', 'ipkg/utils.py'],
  [('directories', 'ipkg/environments.py EnvironmentDirectories.create, ipkg/utils.py mkdir'), ('temporary files', 'ipkg/environments.py Environment.mktmpdir, cleanup_tmpdir'), ('settings', 'ipkg/environments.py Environment.get_config, set_config')],
  ['file system', 'Environment.get_config(key)'])
p('C38', 'Every ipkg error can be shown and names what it is about',
  'An ipkg error, whatever caused it, can be shown as a text which is not empty and which names what it is about: the malformed requirement (or its selector), platform or package spec, the package or requirement that cannot be found, the packages of a dependency loop, the missing attribute, the variable, the file, address or directory, or the command that failed. This holds whatever characters that text is made of.',
  ['inputs', 'fault_sequences'], 'some twenty-five kinds of errors, subjects of the stated length with characters that are special in format strings',
  'Tests only check the class of errors.',
  ['ipkg/exceptions.py', 'ipkg/requirements.py', 'ipkg/dependencies.py', 'ipkg/utils.py', 'ipkg/environments.py', 'ipkg/files/backends/__init__.py', 'ipkg/files/backends/http.py'],
  [('messages', 'ipkg/exceptions.py IpkgException.__str__ and the classes derived from it')],
  ['str(error)'])
p('C39', 'A build starts from its declared sources, patches, dependencies, variables',
  'The install step of a formula runs once, after its source archive was unpacked in a fresh directory, each of its patches was applied there in the given order (patch -p0, reading the whole patch), and its dependencies and theirs were installed in the build environment. The commands of the build run with the variables of the environment, those of its dependencies and the build variables of the formula, %(name)s standing for the directories; none of these remain in the environment after a successful build, and so do not reach the next one. When a declared checksum does not match or a dependency cannot be found, an ipkg error is raised before the install step and no package is made.',
  ['inputs', 'configurations', 'histories'], 'symbolic contents of sources and up to three patches with right and wrong checksums, dependency sets of which any may be lost or installed, kinds of build variables, temporary and given environments, two builds in a row',
  'The only formula built by the tests has neither patches nor dependencies nor build variables.',
  ['ipkg/build.py', 'ipkg/environments.py', 'ipkg/utils.py'],
  [('build', 'ipkg/build.py Formula.build, File.open'), ('variables', 'ipkg/environments.py EnvironmentVariables.add')],
  ['subprocess.Popen', 'Formula.build(package_dir, remove_build_dir, repository)'])
p('C40', 'Processes which work at once never see or leave half-written files',
  'While one process saves the metadata of an environment, the index of a repository, a dictionary file or a downloaded file in the cache, another process may read or write the same file at any moment. Both succeed; whoever reads gets a complete version, the one before or one the other process saved; and the file left at the end is a complete version one of the processes wrote. (The changes of two processes are not merged: the last save wins.)',
  ['schedules', 'inputs'], 'a second process running as a whole before any file operation of the first one, or in the middle of any of its writes; free contents, kinds of operations on both sides',
  'No test runs two processes on the same files.',
  ['ipkg/utils.py', 'ipkg/files/cache.py', 'ipkg/environments.py', 'ipkg/repositories.py'],
  [('metadata', 'ipkg/utils.py DictFile.save'), ('cache', 'ipkg/files/cache.py set'), ('index', 'ipkg/repositories.py LocalPackageRepository.update_metadata')],
  ['DictFile.save', 'vopen', 'Environment.install', 'LocalPackageRepository.update_metadata'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
