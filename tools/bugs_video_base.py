import os, sys
from plant import plant
COMMON = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "video_common.go")).read()
MAIN = "package main\n\nimport (\n%s\t\"bytes\"\n\n\t\"github.com/32bitkid/mpeg/video\"\n)\n\nvar _ = bytes.NewReader\nvar _ = video.EOS\n\n"


def v(bid, prop, edits, demo, needs, breaks, imports=()):
    if len(sys.argv) > 1 and bid not in sys.argv[1:]:
        return
    plant(bid, prop, edits, MAIN % "".join('\t"%s"\n' % i for i in imports) + demo, needs, breaks, COMMON)


