REGISTRY = {
    "C01": ("phase", "c01"), "C02": ("phase", "c02"), "C03": ("phase", "c03"), "C04": ("phase", "c04"),
    "C05": ("phase", "c05"), "C06": ("phase", "c06"), "C07": ("phase", "c07"), "C08": ("phase", "c08"), "C23": ("phase", "c23"),
    "C18": ("conserve", "c18"),
    "C21": ("sdd", "c21"),
    "C12": ("files", "c12"),
    "C11": ("cli", "c11"),
    "C20": ("elastic", "c20"), "C22": ("terms", "c22"), "C24": ("pfc", "c24"), "C25": ("image", "c25"), "C26": ("plot", "c26"), "C27": ("setup", "c27"),
    "C19": ("crash", "c19"),
    "C09": ("db", "c09"), "C10": ("db", "c10"),
    "C13": ("grid", "c13"), "C14": ("grid", "c14"), "C15": ("grid", "c15"), "C16": ("grid", "c16"),
    "C17": ("grid", "c17"),
}
