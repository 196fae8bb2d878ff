# writes known_findings.txt from the fix commits of /repo
import subprocess
M="""32fbf4f C10
4d2d0d5 C01
7008c1a C01
0c6fc59 C01
04b31dc C02
80ea81f C01
fbcd16e C01
a386643 C01
ff59f83 C01
b283245 C01
4e7fca3 C03
d2ea88d C01
fe9c2fd C03
702a466 C01
b3fdfa8 C07
15dd46a C12
0174666 C01
022b87f C07
93e286b C01
754e1ea C01
7a5e40f C02
d974c73 C01
5c3df6a C13
a58bb30 C13
1b05622 C13
1dd70a5 C13
169d617 C01
04076e5 C01
4cee373 C13
3fcc99a C13
eae4470 C01
7bdbc38 C03
944d82f C03
057d2ea C05
cf96532 C01
c2ab0ef C01
5791941 C08
e30d39f C05
52005d0 C05
8ec1212 C03
8defbf2 C04
97195a0 C05
d5e1979 C08
824887c C08
50a2297 C08
03b9620 C12
6722959 C12
76e1a0b C12
a8dbf54 C11
4ae0701 C11
ebba6f0 C09
244cd01 C06
ce48c73 C03
d89f08f C12
d517653 C03
7bb3791 C09
f67972a C01
cef7fdd C09
0c84d01 C09
a6ca654 C01
ed2f22d C03
c07537d C03
cd98d9d C17
0fd705c C17
ec7d943 C17
2f317e8 C17
239f81f C17
527ac05 C17
ba8a79f C17
fcbf73b C17
70dc52b C17
4b43e50 C02
2b5f0ad C19
facda15 C18
6b4ee60 C03
b88c8c4 C20
8f17f31 C20
ab5a269 C20
09f0bb2 C20
c22c368 C20
1b01ce5 C20
8d271f6 C20
5abb741 C13
c906dc8 C21
01bacde C22
eac26b8 C17
62d53d1 C20
ab37795 C04"""
prop=dict(l.split() for l in M.split("\n"))
out=["# Genuine defects of goorc found while building these checks. 'fixed:' entries suppress nothing."]
for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).split("\n"):
    if " fix: " in l or l[8:].startswith("fix: "):
        h,m=l.split(" ",1)
        out.append("fixed: property=%s %s %s"%(prop.pop(h,"C??"),h,m[5:]))
assert not prop,prop
open("/verif/known_findings.txt","w").write("\n".join(out)+"\n")
