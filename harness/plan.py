"""Which suites and which model-checking runs decide each property."""
# property -> {suite: [(MC module, emits scenarios)]}
PLAN = {
    "C01": {"resolver": [("MCResolver", True)]},
    "C02": {"resolver": [("MCResolver", True)]},
    "C03": {"resolver": [("MCResolver", True)]},
    "C04": {"resolver": [("MCResolver", True)]},
    "C05": {"resolver": [("MCResolver", False), ("MCVersion", True)]},
    "C06": {"resolver": [("MCResolver", False)]},
    "C07": {"resolver": [("MCResolver", True)], "text": [], "meta": []},
    "C08": {"text": [("MCDesc", True)]},
    "C09": {"text": [("MCText", True)]},
    "C10": {"text": [("MCText", True)]},
    "C11": {"text": [("MCDesc", False)]},
    "C12": {"meta": [("MCDoc", True)]},
    "C13": {"meta": [("MCDoc", True)]},
    "C14": {"meta": [("MCMeta", True)]},
    "C15": {"meta": [("MCMeta", True)]},
    "C16": {"meta": [("MCDoc", False)]},
    "C17": {"wheel": [("MCWheel", False)]},
    "C18": {"wheel": [("MCWheel", True)]},
    "C19": {"wheel": [("MCWheel", True)]},
    "C20": {"wheel": [("MCWheel", True)]},
    "C21": {"wheel": [("MCWheel", True)]},
    "C22": {"plugin": [("MCPlugin", False)]},
    "C23": {"plugin": [("MCPlugin", True)]},
    "C24": {"plugin": [("MCPlugin", True)]},
    "C25": {"plugin": []},
    "C26": {"plugin": [], "wheel": []},
    "C27": {"plugin": [], "wheel": []},
    "C28": {"config": [("MCConfig", True)]},
    "C29": {"config": [("MCConfig", True)]},
    "C30": {"pyproj": [("MCPyproj", True)]},
    "C31": {"wheel": []},
    "C32": {"wheel": [("MCIsolate", True)]},
    "C33": {"types": [("MCTypes", True)]},
    "C34": {"cli": [("MCCli", True)]},
}
