MODULES = {
  "C01": ["net"],
  "C02": ["net"],
  "C03": ["net"],
  "C04": ["net"],
  "C05": ["net"],
  "C06": ["net"],
  "C07": ["net"],
  "C08": ["wire"], "C09": ["wire"], "C10": ["wire"], "C12": ["wire"],
  **{k: ["tasks"] for k in ("C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24")},
  **{k: ["web"] for k in ("C29", "C30", "C41", "C42")},
  **{k: ["http"] for k in ("C25", "C26", "C27", "C28")},
  **{k: ["client"] for k in ("C11", "C13", "C14", "C15", "C16")},
  **{k: ["flow"] for k in ("C38", "C43")},
  **{k: ["ui"] for k in ("C44",)},
  **{k: ["conn"] for k in ("C46", "C47")},
  "C45": ["gateway"],
  "C35": ["malformed"],
  "C36": ["video"],
  "C37": ["output"], "C48": ["sources"], "C49": ["inference"],
  **{k: ["timing"] for k in ("C34",)},
  **{k: ["media"] for k in ("C32", "C33", "C40")},
}
