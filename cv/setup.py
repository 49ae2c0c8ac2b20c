"""setup: builds the extractor (everything else is rebuilt by the checks from /repo's current sources)"""
from .front import build_extractor
if __name__ == '__main__':
    print(build_extractor())
